From 6293fd7ded045476a64da2b8920978d5510da458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:43 +0000
Subject: [PATCH 01/35] fix: resumable dumps neither lose, repeat nor reorder
 pieces

After a piece that did not fit, cat_dump_resume went on dumping later
pieces (and dumped them again on resume), and string pieces met with an
empty buffer were marked as dumped. format_dump_resume dumped the tail
again when resumed after completion, and miscomputed the format when it
had fewer {} than arguments.
---
 src/c4/dump.hpp | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index c65623f..edd217f 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -138,41 +138,45 @@ namespace detail {
 
 // terminates the variadic recursion
 template<DumperPfn dumpfn, class Arg>
-DumpResults cat_dump_resume(size_t currarg, DumpResults results, substr buf, Arg const& C4_RESTRICT a)
+DumpResults cat_dump_resume(size_t currarg, DumpResults results, substr & C4_RESTRICT buf, Arg const& C4_RESTRICT a)
 {
     if(C4_LIKELY(results.write_arg(currarg)))
     {
         size_t sz = dump<dumpfn>(buf, a);  // yield to the specialized function
-        if(currarg == results.lastok + 1 && sz <= buf.len)
-            results.lastok = currarg;
         results.bufsize = sz > results.bufsize ? sz : results.bufsize;
+        if(C4_LIKELY(buf.len > 0 && sz <= buf.len))
+            results.lastok = currarg;
+        else
+            buf.len = 0; // ensure no more calls to dump
     }
     return results;
 }
 
 // terminates the variadic recursion
 template<class DumperFn, class Arg>
-DumpResults cat_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults results, substr buf, Arg const& C4_RESTRICT a)
+DumpResults cat_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults results, substr & C4_RESTRICT buf, Arg const& C4_RESTRICT a)
 {
     if(C4_LIKELY(results.write_arg(currarg)))
     {
         size_t sz = dump(dumpfn, buf, a);  // yield to the specialized function
-        if(currarg == results.lastok + 1 && sz <= buf.len)
-            results.lastok = currarg;
         results.bufsize = sz > results.bufsize ? sz : results.bufsize;
+        if(C4_LIKELY(buf.len > 0 && sz <= buf.len))
+            results.lastok = currarg;
+        else
+            buf.len = 0; // ensure no more calls to dump
     }
     return results;
 }
 
 template<DumperPfn dumpfn, class Arg, class... Args>
-DumpResults cat_dump_resume(size_t currarg, DumpResults results, substr buf, Arg const& C4_RESTRICT a, Args const& C4_RESTRICT ...more)
+DumpResults cat_dump_resume(size_t currarg, DumpResults results, substr & C4_RESTRICT buf, Arg const& C4_RESTRICT a, Args const& C4_RESTRICT ...more)
 {
     results = detail::cat_dump_resume<dumpfn>(currarg, results, buf, a);
     return detail::cat_dump_resume<dumpfn>(currarg + 1u, results, buf, more...);
 }
 
 template<class DumperFn, class Arg, class... Args>
-DumpResults cat_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults results, substr buf, Arg const& C4_RESTRICT a, Args const& C4_RESTRICT ...more)
+DumpResults cat_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults results, substr & C4_RESTRICT buf, Arg const& C4_RESTRICT a, Args const& C4_RESTRICT ...more)
 {
     results = detail::cat_dump_resume(currarg, dumpfn, results, buf, a);
     return detail::cat_dump_resume(currarg + 1u, dumpfn, results, buf, more...);
@@ -280,10 +284,10 @@ void catsep_dump_resume_(size_t currarg, DumpResults *C4_RESTRICT results, subst
     {
         size_t sz = dump<dumpfn>(*buf, a);
         results->bufsize = sz > results->bufsize ? sz : results->bufsize;
-        if(C4_LIKELY(sz <= buf->len))
+        if(C4_LIKELY(buf->len > 0 && sz <= buf->len))
             results->lastok = currarg;
         else
-            buf->len = 0;
+            buf->len = 0; // ensure no more calls to dump
     }
 }
 
@@ -294,10 +298,10 @@ void catsep_dump_resume_(size_t currarg, DumperFn &&dumpfn, DumpResults *C4_REST
     {
         size_t sz = dump(dumpfn, *buf, a);
         results->bufsize = sz > results->bufsize ? sz : results->bufsize;
-        if(C4_LIKELY(sz <= buf->len))
+        if(C4_LIKELY(buf->len > 0 && sz <= buf->len))
             results->lastok = currarg;
         else
-            buf->len = 0;
+            buf->len = 0; // ensure no more calls to dump
     }
 }
 
@@ -453,7 +457,7 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
 {
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(buf.len > 0))
+    if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
     {
         dumpfn(fmt);
         results.lastok = currarg;
@@ -466,7 +470,7 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
 {
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(buf.len > 0))
+    if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
     {
         dumpfn(fmt);
         results.lastok = currarg;
@@ -499,15 +503,17 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
             dumpfn(fmt.first(pos));
         }
     }
+    if(C4_UNLIKELY(pos == csubstr::npos))
+        return results; // the format was already fully dumped
     fmt = fmt.sub(pos + 2);
     if(C4_LIKELY(results.write_arg(currarg + 1)))
     {
         pos = dump<dumpfn>(buf, a);
         results.bufsize = pos > results.bufsize ? pos : results.bufsize;
-        if(C4_LIKELY(pos <= buf.len))
+        if(C4_LIKELY(buf.len > 0 && pos <= buf.len))
             results.lastok = currarg + 1;
         else
-            buf.len = 0;
+            buf.len = 0; // ensure no more calls to dump
     }
     return detail::format_dump_resume<dumpfn>(currarg + 2u, results, buf, fmt, more...);
 }
@@ -539,15 +545,17 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
             dumpfn(fmt.first(pos));
         }
     }
+    if(C4_UNLIKELY(pos == csubstr::npos))
+        return results; // the format was already fully dumped
     fmt = fmt.sub(pos + 2);
     if(C4_LIKELY(results.write_arg(currarg + 1)))
     {
         pos = dump(dumpfn, buf, a);
         results.bufsize = pos > results.bufsize ? pos : results.bufsize;
-        if(C4_LIKELY(pos <= buf.len))
+        if(C4_LIKELY(buf.len > 0 && pos <= buf.len))
             results.lastok = currarg + 1;
         else
-            buf.len = 0;
+            buf.len = 0; // ensure no more calls to dump
     }
     return detail::format_dump_resume(currarg + 2u, dumpfn, results, buf, fmt, more...);
 }
-- 
2.43.0


From 9b7b37783648fda3213c76da08bf6b6c871e7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:20 +0000
Subject: [PATCH 02/35] fix: fmt::left() and fmt::right() do not write past a
 buffer smaller than the width

---
 src/c4/format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 519c2a4..7fb03fa 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -545,7 +545,7 @@ template<class T>
 size_t to_chars(substr buf, fmt::left_<T> const& C4_RESTRICT align)
 {
     size_t ret = to_chars(buf, align.val);
-    if(ret >= buf.len || ret >= align.width)
+    if(ret >= align.width || align.width > buf.len)
         return ret > align.width ? ret : align.width;
     buf.first(align.width).sub(ret).fill(align.pad);
     to_chars(buf, align.val);
@@ -557,7 +557,7 @@ template<class T>
 size_t to_chars(substr buf, fmt::right_<T> const& C4_RESTRICT align)
 {
     size_t ret = to_chars(buf, align.val);
-    if(ret >= buf.len || ret >= align.width)
+    if(ret >= align.width || align.width > buf.len)
         return ret > align.width ? ret : align.width;
     size_t rem = static_cast<size_t>(align.width - ret);
     buf.first(rem).fill(align.pad);
-- 
2.43.0


From a8071457086e9519708077e00e608a0eb206bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:35 +0000
Subject: [PATCH 03/35] fix: hexadecimal reals put the sign before the 0x
 prefix, and stay inside tiny buffers

---
 src/c4/charconv.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 41a513b..281e3c8 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -10,6 +10,7 @@
 #include <type_traits>
 #include <climits>
 #include <limits>
+#include <cmath>
 #include <utility>
 
 #include "c4/config.hpp"
@@ -1925,14 +1926,23 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
     size_t pos = 0;
     if(formatting == FTOA_HEXA)
     {
-        if(buf.len > size_t(2))
+        if(std::signbit(v)) // the sign must come before the prefix
         {
-            buf.str[0] = '0';
-            buf.str[1] = 'x';
+            v = -v;
+            if(buf.len > size_t(0))
+                buf.str[0] = '-';
+            ++pos;
+        }
+        if(buf.len > pos + size_t(2))
+        {
+            buf.str[pos + 0] = '0';
+            buf.str[pos + 1] = 'x';
         }
         pos += size_t(2);
     }
-    if(precision == -1)
+    if(pos > buf.len)
+        result.ec = std::errc::value_too_large;
+    else if(precision == -1)
         result = std::to_chars(buf.str + pos, buf.str + buf.len, v, (std::chars_format)formatting);
     else
         result = std::to_chars(buf.str + pos, buf.str + buf.len, v, (std::chars_format)formatting, precision);
-- 
2.43.0


From 94c9adcee9624358de5d8583aa6887bc978b817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:00 +0000
Subject: [PATCH 04/35] fix: MemoryResourceLinear::reallocate() keeps the
 contents when the block moves

Also compare sizes rather than pointers, so that a huge request does not
wrap around and pass for one that fits.
---
 src/c4/memory_resource.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 891c373..3f1bf9a 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -247,15 +247,18 @@ void* MemoryResourceLinear::do_reallocate(void* ptr, size_t oldsz, size_t newsz,
         return ptr;
     }
     // we're growing the block, and it fits in size
-    else if(same_pos && cptr + newsz <= m_mem + m_size)
+    else if(same_pos && newsz - oldsz <= m_size - m_pos)
     {
         // if this is the MRA, we can safely shrink the position
         m_pos += newsz - oldsz;
         return ptr;
     }
     // we're growing the block or it doesn't fit -
-    // delegate any of these situations to do_deallocate()
-    return do_allocate(newsz, alignment, ptr);
+    // delegate any of these situations to do_allocate()
+    void *mem = do_allocate(newsz, alignment, ptr);
+    if(mem && ptr && oldsz)
+        ::memcpy(mem, ptr, oldsz);
+    return mem;
 }
 
 
-- 
2.43.0


From 421bddeddce4929094757eebec569cf383a0851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:00 +0000
Subject: [PATCH 05/35] fix: single-chunk resources return their chunk upstream
 exactly once

acquire() and release() called outside of construction dispatched to the
linear override instead of the upstream resource, so acquire(size) always
failed and release() leaked; re-acquiring leaked the previous chunk, and a
failed acquire left the resource claiming ownership.
---
 src/c4/memory_resource.cpp | 10 ++++++----
 src/c4/memory_resource.hpp |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 3f1bf9a..a225c63 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -166,7 +166,8 @@ void detail::_MemoryResourceSingleChunk::release()
 {
     if(m_mem && m_owner)
     {
-        impl_type::deallocate(m_mem, m_size);
+        // qualified: the virtual override serves from the chunk itself
+        impl_type::do_deallocate(m_mem, m_size, alignof(max_align_t));
     }
     m_mem = nullptr;
     m_size = 0;
@@ -176,16 +177,17 @@ void detail::_MemoryResourceSingleChunk::release()
 
 void detail::_MemoryResourceSingleChunk::acquire(size_t sz)
 {
-    clear();
+    release();
+    // qualified: the virtual override serves from the chunk itself
+    m_mem = (char*) impl_type::do_allocate(sz, alignof(max_align_t), nullptr);
     m_owner = true;
-    m_mem = (char*) impl_type::allocate(sz, alignof(max_align_t));
     m_size = sz;
     m_pos = 0;
 }
 
 void detail::_MemoryResourceSingleChunk::acquire(void *mem, size_t sz)
 {
-    clear();
+    release();
     m_owner = false;
     m_mem = (char*) mem;
     m_size = sz;
diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 0818f58..4b28367 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -288,7 +288,7 @@ public:
     char  *m_mem{nullptr};
     size_t m_size{0};
     size_t m_pos{0};
-    bool   m_owner;
+    bool   m_owner{false};
 
 public:
 
-- 
2.43.0


From 578811539094180b89e47e796cb041d633df4125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:00 +0000
Subject: [PATCH 06/35] fix: MemoryResourceCounts keeps its counts when a
 reallocation fails

---
 src/c4/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 4b28367..848ff7b 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -513,8 +513,8 @@ protected:
 
     virtual void* do_reallocate(void* ptr, size_t oldsz, size_t newsz, size_t alignment) override
     {
-        m_counts.rem_counts(ptr, oldsz);
         void* nptr = m_resource->reallocate(ptr, oldsz, newsz, alignment);
+        m_counts.rem_counts(ptr, oldsz);
         m_counts.add_counts(nptr, newsz);
         return nptr;
     }
-- 
2.43.0


From 561d2506e4038b18243a7f71de6d241ca40e7e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:00 +0000
Subject: [PATCH 07/35] fix: the default arealloc keeps the block when the new
 allocation fails

---
 src/c4/memory_resource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index a225c63..d3367a8 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -84,6 +84,8 @@ void* arealloc_impl(void* ptr, size_t oldsz, size_t newsz, size_t alignment)
      * @see look for qReallocAligned() in http://code.qt.io/cgit/qt/qtbase.git/tree/src/corelib/global/qmalloc.cpp
      */
     void *tmp = aalloc(newsz, alignment);
+    if(C4_UNLIKELY(tmp == nullptr))
+        return nullptr;
     size_t min = newsz < oldsz ? newsz : oldsz;
     if(mem_overlaps(ptr, tmp, oldsz, newsz))
     {
-- 
2.43.0


From 13b1b886ad99a0a1b74f2103543a5b3735473089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:00 +0000
Subject: [PATCH 08/35] fix: ScopedMemoryResourceCounts(MemoryResource*)
 restores the previous resource

---
 src/c4/memory_resource.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 848ff7b..b023c2e 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -548,18 +548,19 @@ struct ScopedMemoryResource
 struct ScopedMemoryResourceCounts
 {
     MemoryResourceCounts mr;
+    MemoryResource *m_original;
 
-    ScopedMemoryResourceCounts() : mr()
+    ScopedMemoryResourceCounts() : mr(), m_original(get_memory_resource())
     {
         set_memory_resource(&mr);
     }
-    ScopedMemoryResourceCounts(MemoryResource *m) : mr(m)
+    ScopedMemoryResourceCounts(MemoryResource *m) : mr(m), m_original(get_memory_resource())
     {
         set_memory_resource(&mr);
     }
     ~ScopedMemoryResourceCounts()
     {
-        set_memory_resource(mr.resource());
+        set_memory_resource(m_original);
     }
 };
 
-- 
2.43.0


From d09fb60fdb904df4665158d12499798eacc3cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:14 +0000
Subject: [PATCH 09/35] fix: SmallAllocator objects do not overlap, and
 reallocate() keeps the contents

Deallocating out of order made the next objects overlap live ones; objects
allocated from the resource were counted as if in the array; placing at an
over-aligned position, or zero objects at the end of the full array, gave
misaligned or foreign pointers; and reallocate() did not compile for types
other than char, nor preserved contents.
---
 src/c4/allocator.hpp | 88 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 68 insertions(+), 20 deletions(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index e345966..b03595c 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -5,6 +5,8 @@
 #include "c4/ctor_dtor.hpp"
 
 #include <memory> // std::allocator_traits
+#include <string.h>
+#include <stdint.h>
 #include <type_traits>
 
 /** @file allocator.hpp Contains classes to make typeful allocations (note
@@ -272,7 +274,8 @@ class SmallAllocator : public detail::_AllocatorUtil<MemResProvider>
     using impl_type = detail::_AllocatorUtil<MemResProvider>;
 
     alignas(Alignment) char m_arr[N * sizeof(T)];
-    size_t m_num{0};
+    size_t m_num{0};  ///< the array is free from this position onwards
+    size_t m_live{0}; ///< number of live objects in the array
 
 public:
 
@@ -318,7 +321,7 @@ public:
     template<class U, size_t N2, size_t A2, class MP2>
     SmallAllocator(SmallAllocator<U,N2,A2,MP2> const& that) : impl_type(that.resource())
     {
-        C4_ASSERT(that.m_num == 0);
+        C4_ASSERT(that.m_live == 0);
     }
 
     SmallAllocator(SmallAllocator const&) = default;
@@ -336,54 +339,99 @@ public:
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
         void *vmem;
-        if(m_num + num_objs <= N)
+        const size_t pos = _arr_pos(num_objs, alignment);
+        if(pos != npos)
         {
-            vmem = (m_arr + m_num * sizeof(T));
+            vmem = (m_arr + pos * sizeof(T));
+            if(num_objs)
+                m_num = pos + num_objs;
+            m_live += num_objs;
         }
         else
         {
-            vmem = this->resource()->allocate(num_objs * sizeof(T), alignment);
+            vmem = this->resource()->allocate(detail::size_for<T>(num_objs), alignment);
         }
-        m_num += num_objs;
         T *mem = static_cast<T*>(vmem);
         return mem;
     }
 
     void deallocate(T * ptr, size_t num_objs, size_t alignment=Alignment)
     {
-        C4_ASSERT(m_num >= num_objs);
-        m_num -= num_objs;
-        if((char*)ptr >= m_arr && (char*)ptr < m_arr + (N * sizeof(T)))
+        if(_in_arr(ptr))
         {
+            C4_ASSERT(m_live >= num_objs);
+            const size_t pos = _pos_of(ptr);
+            m_live -= num_objs;
+            if(m_live == 0)
+                m_num = 0;
+            else if(pos + num_objs == m_num)
+                m_num = pos;
             return;
         }
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
-        this->resource()->deallocate(ptr, num_objs * sizeof(T), alignment);
+        this->resource()->deallocate(ptr, detail::size_for<T>(num_objs), alignment);
     }
 
     T* reallocate(T * ptr, size_t oldnum, size_t newnum, size_t alignment=Alignment)
     {
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
-        if(oldnum <= N && newnum <= N)
-        {
-            return m_arr;
-        }
-        else if(oldnum <= N && newnum > N)
+        const bool in_arr = _in_arr(ptr);
+        if(in_arr)
         {
-            return allocate(newnum, alignment);
+            const size_t pos = _pos_of(ptr);
+            const bool is_last = (pos + oldnum == m_num);
+            if(newnum <= oldnum || (is_last && newnum <= N - pos))
+            {
+                m_live = m_live - oldnum + newnum;
+                if(is_last)
+                    m_num = pos + newnum;
+                if(m_live == 0)
+                    m_num = 0;
+                return ptr;
+            }
         }
-        else if(oldnum > N && newnum <= N)
+        // the block must move into, or out of, the array
+        if(in_arr || !ptr || (oldnum > N && _arr_pos(newnum, alignment) != npos))
         {
-            deallocate(ptr, oldnum, alignment);
-            return m_arr;
+            T* mem = allocate(newnum, alignment);
+            const size_t num = oldnum < newnum ? oldnum : newnum;
+            if(ptr && num)
+                ::memcpy((void*)mem, (void const*)ptr, num * sizeof(T));
+            if(ptr)
+                deallocate(ptr, oldnum, alignment);
+            return mem;
         }
-        void* vmem = this->resource()->reallocate(ptr, oldnum * sizeof(T), newnum * sizeof(T), alignment);
+        void* vmem = this->resource()->reallocate(ptr, detail::size_for<T>(oldnum), detail::size_for<T>(newnum), alignment);
         T* mem = static_cast<T*>(vmem);
         return mem;
     }
 
+private:
+
+    static constexpr const size_t npos = (size_t)-1;
+
+    bool _in_arr(T const* ptr) const
+    {
+        return (char const*)ptr >= m_arr && (char const*)ptr < m_arr + (N * sizeof(T));
+    }
+
+    size_t _pos_of(T const* ptr) const
+    {
+        return (size_t)((char const*)ptr - m_arr) / sizeof(T);
+    }
+
+    /** get the array position where to place the objects, or npos if
+     * there is no room for them in the array */
+    size_t _arr_pos(size_t num_objs, size_t alignment) const
+    {
+        size_t pos = num_objs ? m_num : 0;
+        while(pos < N && ((uintptr_t)(m_arr + pos * sizeof(T)) & (alignment - 1)) != 0)
+            ++pos;
+        return (pos < N && num_objs <= N - pos) ? pos : npos;
+    }
+
 };
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From c881cb40f2bcd85f7291c0915e96506085d3c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:14 +0000
Subject: [PATCH 10/35] fix: allocators refuse a number of objects whose size
 overflows size_t

---
 src/c4/allocator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index b03595c..a8f7796 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -29,7 +29,8 @@ namespace c4 {
 C4_SUPPRESS_WARNING_GCC_CLANG_WITH_PUSH("-Wold-style-cast")
 
 namespace detail {
-template<class T> inline size_t size_for      (size_t num_objs) noexcept { return num_objs * sizeof(T); }
+// saturates on overflow, so that the request fails instead of being cut short
+template<class T> inline size_t size_for      (size_t num_objs) noexcept { return num_objs <= (size_t)-1 / sizeof(T) ? num_objs * sizeof(T) : (size_t)-1; }
 template<       > inline size_t size_for<void>(size_t num_objs) noexcept { return num_objs;             }
 } // namespace detail
 
-- 
2.43.0


From 769d7bf643ab76c917a2117ceadf853087ac6a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 11/35] fix: is_debugger_attached() with interrupted or short
 reads, and concurrent first calls

A concurrent caller could see the result before it was ready; interrupted or
short reads gave up; a full first read left the buffer unterminated; and a
process whose name contains TracerPid: was taken for the line.
---
 src/c4/error.cpp | 82 +++++++++++++++++++++++++++---------------------
 1 file changed, 47 insertions(+), 35 deletions(-)

diff --git a/src/c4/error.cpp b/src/c4/error.cpp
index 32a266d..844a46c 100644
--- a/src/c4/error.cpp
+++ b/src/c4/error.cpp
@@ -16,6 +16,7 @@
 #   include <sys/stat.h>
 #   include <cstring>
 #   include <fcntl.h>
+#   include <errno.h>
 #elif defined(C4_MACOS) || defined(C4_IOS)
 #   include <assert.h>
 #   include <stdbool.h>
@@ -145,48 +146,59 @@ void handle_warning(srcloc where, const char *fmt, ...)
 }
 
 //-----------------------------------------------------------------------------
-bool is_debugger_attached()
-{
 #if defined(C4_UNIX) || defined(C4_LINUX)
-    static bool first_call = true;
-    static bool first_call_result = false;
-    if(first_call)
+/** look for a nonzero TracerPid in /proc/self/status.
+ * @see http://stackoverflow.com/questions/3596781/how-to-detect-if-the-current-process-is-being-run-by-gdb
+ * (this answer: http://stackoverflow.com/a/24969863/3968589 ) */
+static bool is_tracer_pid_set()
+{
+    C4_SUPPRESS_WARNING_GCC_PUSH
+    #if defined(__GNUC__) && __GNUC__ > 9
+    C4_SUPPRESS_WARNING_GCC("-Wanalyzer-fd-leak")
+    #endif
+    int status_fd;
+    do {
+        status_fd = open("/proc/self/status", O_RDONLY);
+    } while(status_fd == -1 && errno == EINTR);
+    if(status_fd == -1)
+        return false;
+    static const char TracerPid[] = "\nTracerPid:";
+    const size_t len = sizeof(TracerPid) - 1;
+    size_t matched = 1; // the start of the file is also the start of a line
+    bool is_set = false, done = false;
+    while(!done)
     {
-        first_call = false;
-        C4_SUPPRESS_WARNING_GCC_PUSH
-        #if defined(__GNUC__) && __GNUC__ > 9
-        C4_SUPPRESS_WARNING_GCC("-Wanalyzer-fd-leak")
-        #endif
-        //! @see http://stackoverflow.com/questions/3596781/how-to-detect-if-the-current-process-is-being-run-by-gdb
-        //! (this answer: http://stackoverflow.com/a/24969863/3968589 )
-        char buf[1024] = "";
-        int status_fd = open("/proc/self/status", O_RDONLY);
-        if (status_fd == -1)
+        char buf[1024];
+        ssize_t num_read = ::read(status_fd, buf, sizeof(buf));
+        if(num_read < 0 && errno == EINTR)
+            continue;
+        if(num_read <= 0)
+            break;
+        for(ssize_t i = 0; i < num_read && !done; ++i)
         {
-            return 0;
-        }
-        else
-        {
-            ssize_t num_read = ::read(status_fd, buf, sizeof(buf));
-            if (num_read > 0)
+            const char c = buf[i];
+            if(matched == len) // at the value
+            {
+                is_set = (c >= '1' && c <= '9');
+                done = is_set || (c == '\n');
+            }
+            else
             {
-                static const char TracerPid[] = "TracerPid:";
-                char *tracer_pid;
-                if(num_read < 1024)
-                {
-                    buf[num_read] = 0;
-                }
-                tracer_pid = strstr(buf, TracerPid);
-                if (tracer_pid)
-                {
-                    first_call_result = !!::atoi(tracer_pid + sizeof(TracerPid) - 1);
-                }
+                matched = (c == TracerPid[matched]) ? matched + 1 : (c == '\n');
             }
-            close(status_fd);
         }
-        C4_SUPPRESS_WARNING_GCC_POP
     }
-    return first_call_result;
+    close(status_fd);
+    return is_set;
+    C4_SUPPRESS_WARNING_GCC_POP
+}
+#endif
+
+bool is_debugger_attached()
+{
+#if defined(C4_UNIX) || defined(C4_LINUX)
+    static const bool attached = is_tracer_pid_set();
+    return attached;
 #elif defined(C4_PS4)
     return (sceDbgIsDebuggerAttached() != 0);
 #elif defined(C4_XBOX) || (defined(C4_WIN) && defined(C4_MSVC))
-- 
2.43.0


From 85310ef568200cd2faec0d9f8652bb482d2c0592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 12/35] fix: errors that cannot be formatted, or are only
 thrown, carry a proper message

The message was uninitialized memory with ON_ERROR_THROW alone, and of bogus
length when formatting failed. Also, enabling C4_ERROR_THROWS_EXCEPTION did
not compile for lack of an include.
---
 src/c4/error.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/c4/error.cpp b/src/c4/error.cpp
index 844a46c..70f46af 100644
--- a/src/c4/error.cpp
+++ b/src/c4/error.cpp
@@ -30,7 +30,7 @@
 #endif
 
 #if defined(C4_EXCEPTIONS_ENABLED) && defined(C4_ERROR_THROWS_EXCEPTION)
-#   include <exception>
+#   include <stdexcept>
 #endif
 
 #ifdef __clang__
@@ -79,12 +79,14 @@ void handle_error(srcloc where, const char *fmt, ...)
 {
     char buf[1024];
     size_t msglen = 0;
-    if(s_error_flags & (ON_ERROR_LOG|ON_ERROR_CALLBACK))
+    if(s_error_flags & (ON_ERROR_LOG|ON_ERROR_CALLBACK|ON_ERROR_THROW))
     {
         va_list args;
         va_start(args, fmt);
         int ilen = vsnprintf(buf, sizeof(buf), fmt, args); // ss.vprintf(fmt, args);
         va_end(args);
+        if(ilen < 0) // could not format: use the format itself
+            ilen = snprintf(buf, sizeof(buf), "%s", fmt);
         msglen = ilen >= 0 && ilen < (int)sizeof(buf) ? static_cast<size_t>(ilen) : sizeof(buf)-1;
     }
 
-- 
2.43.0


From 0f8283e26a241e1abd74d01a6ecccffe4913b511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 13/35] fix: C4_CHECK_MSG() does not take its condition for a
 format string

A condition with a modulo operator was expanded as a conversion specifier.
---
 src/c4/error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/error.hpp b/src/c4/error.hpp
index 95d7c0d..c326109 100644
--- a/src/c4/error.hpp
+++ b/src/c4/error.hpp
@@ -338,7 +338,7 @@ struct srcloc
     do {                                                                \
         if(C4_UNLIKELY(!(cond)))                                        \
         {                                                               \
-            C4_ERROR("check failed: " #cond "\n" fmt, ## __VA_ARGS__);  \
+            C4_ERROR("check failed: %s\n" fmt, #cond, ## __VA_ARGS__); \
         }                                                               \
     } while(0)
 
-- 
2.43.0


From 5df28cf1b33e78b45b2310c2e5fdb9e84273b951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:47 +0000
Subject: [PATCH 14/35] fix: warnings that cannot be formatted carry a proper
 message

---
 src/c4/error.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c4/error.cpp b/src/c4/error.cpp
index 70f46af..23ad140 100644
--- a/src/c4/error.cpp
+++ b/src/c4/error.cpp
@@ -134,7 +134,8 @@ void handle_warning(srcloc where, const char *fmt, ...)
     va_list args;
     char buf[1024];
     va_start(args, fmt);
-    vsnprintf(buf, sizeof(buf), fmt, args);
+    if(vsnprintf(buf, sizeof(buf), fmt, args) < 0) // could not format: use the format itself
+        snprintf(buf, sizeof(buf), "%s", fmt);
     va_end(args);
     C4_LOGF_WARN("\n");
 #if defined(C4_ERROR_SHOWS_FILELINE) && defined(C4_ERROR_SHOWS_FUNC)
-- 
2.43.0


From 5bd548f16ce9f9851ef91ae3a8660d119d255aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:37 +0000
Subject: [PATCH 15/35] fix: inplace_function stays valid when a target's copy
 or move throws, and empty when converted

---
 src/c4/ext/sg14/inplace_function.h | 42 ++++++++++++------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/c4/ext/sg14/inplace_function.h b/src/c4/ext/sg14/inplace_function.h
index 8d7a5b4..52892ac 100644
--- a/src/c4/ext/sg14/inplace_function.h
+++ b/src/c4/ext/sg14/inplace_function.h
@@ -127,6 +127,13 @@ template<typename R, typename... Args> struct vtable
     ~vtable() = default;
 };
 
+// shared by all capacities and alignments, so that an empty function
+// remains empty when it is converted
+template<typename R, typename... Args> struct empty_vtable_holder
+{
+    static const constexpr vtable<R, Args...> value{};
+};
+
 template<size_t DstCap, size_t DstAlign, size_t SrcCap, size_t SrcAlign>
 struct is_valid_inplace_dst : std::true_type
 {
@@ -156,7 +163,7 @@ template<
 >
 class inplace_function<R(Args...), Capacity, Alignment>
 {
-    static const constexpr inplace_function_detail::vtable<R, Args...> empty_vtable{};
+    static constexpr const inplace_function_detail::vtable<R, Args...>& empty_vtable = inplace_function_detail::empty_vtable_holder<R, Args...>::value;
 public:
     using capacity = std::integral_constant<size_t, Capacity>;
     using alignment = std::integral_constant<size_t, Alignment>;
@@ -238,12 +245,13 @@ public:
         if(this != std::addressof(other))
         {
             vtable_ptr_->destructor_ptr(std::addressof(storage_));
+            vtable_ptr_ = std::addressof(empty_vtable); // in case of exception
 
-            vtable_ptr_ = other.vtable_ptr_;
-            vtable_ptr_->copy_ptr(
+            other.vtable_ptr_->copy_ptr(
                 std::addressof(storage_),
                 std::addressof(other.storage_)
             );
+            vtable_ptr_ = other.vtable_ptr_;
         }
         return *this;
     }
@@ -253,12 +261,13 @@ public:
         if(this != std::addressof(other))
         {
             vtable_ptr_->destructor_ptr(std::addressof(storage_));
+            vtable_ptr_ = std::addressof(empty_vtable); // in case of exception
 
-            vtable_ptr_ = other.vtable_ptr_;
-            vtable_ptr_->move_ptr(
+            other.vtable_ptr_->move_ptr(
                 std::addressof(storage_),
                 std::addressof(other.storage_)
             );
+            vtable_ptr_ = other.vtable_ptr_;
         }
         return *this;
     }
@@ -315,26 +324,9 @@ public:
     {
         if (this == std::addressof(other)) return;
 
-        storage_t tmp;
-        vtable_ptr_->move_ptr(
-            std::addressof(tmp),
-            std::addressof(storage_)
-        );
-        vtable_ptr_->destructor_ptr(std::addressof(storage_));
-
-        other.vtable_ptr_->move_ptr(
-            std::addressof(storage_),
-            std::addressof(other.storage_)
-        );
-        other.vtable_ptr_->destructor_ptr(std::addressof(other.storage_));
-
-        vtable_ptr_->move_ptr(
-            std::addressof(other.storage_),
-            std::addressof(tmp)
-        );
-        vtable_ptr_->destructor_ptr(std::addressof(tmp));
-
-        std::swap(vtable_ptr_, other.vtable_ptr_);
+        inplace_function tmp(std::move(*this));
+        *this = std::move(other);
+        other = std::move(tmp);
     }
 
 private:
-- 
2.43.0


From b6cc8e3d21a6f9554ead0eaa1e258d36aadc04a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:54 +0000
Subject: [PATCH 16/35] fix: exceptions of default construction and copy
 assignment are not turned into std::terminate()

---
 src/c4/ctor_dtor.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/c4/ctor_dtor.hpp b/src/c4/ctor_dtor.hpp
index da832ba..331e010 100644
--- a/src/c4/ctor_dtor.hpp
+++ b/src/c4/ctor_dtor.hpp
@@ -24,7 +24,7 @@ construct(U *ptr) noexcept
 }
 /** default-construct an object, non-trivial version */
 template<class U> C4_ALWAYS_INLINE typename std ::enable_if< ! std::is_trivially_default_constructible<U>::value, void>::type
-construct(U* ptr) noexcept
+construct(U* ptr) noexcept(std::is_nothrow_default_constructible<U>::value)
 {
     new ((void*)ptr) U();
 }
@@ -37,7 +37,7 @@ construct_n(U* ptr, I n) noexcept
 }
 /** default-construct n objects, non-trivial version */
 template<class U, class I> C4_ALWAYS_INLINE typename std::enable_if< ! std::is_trivially_default_constructible<U>::value, void>::type
-construct_n(U* ptr, I n) noexcept
+construct_n(U* ptr, I n) noexcept(std::is_nothrow_default_constructible<U>::value)
 {
     for(I i = 0; i < n; ++i)
     {
@@ -136,7 +136,7 @@ copy_construct_n(U* dst, U const& src, I n) // pass by reference for non-scalar
 }
 
 template<class U, size_t N>
-C4_ALWAYS_INLINE void copy_construct(U (&dst)[N], U const (&src)[N]) noexcept
+C4_ALWAYS_INLINE void copy_construct(U (&dst)[N], U const (&src)[N]) noexcept(std::is_nothrow_copy_constructible<U>::value)
 {
     copy_construct_n(dst, src, N);
 }
@@ -151,7 +151,7 @@ copy_assign(U* dst, U const* src) noexcept
     memcpy(dst, src, sizeof(U));
 }
 template<class U> C4_ALWAYS_INLINE typename std::enable_if< ! std::is_trivially_copy_assignable<U>::value, void>::type
-copy_assign(U* dst, U const* src) noexcept
+copy_assign(U* dst, U const* src) noexcept(std::is_nothrow_copy_assignable<U>::value)
 {
     C4_ASSERT(dst != src);
     *dst = *src;
@@ -163,7 +163,7 @@ copy_assign_n(U* dst, U const* src, I n) noexcept
     memcpy(dst, src, n * sizeof(U));
 }
 template<class U, class I> C4_ALWAYS_INLINE typename std::enable_if< ! std::is_trivially_copy_assignable<U>::value, void>::type
-copy_assign_n(U* dst, U const* src, I n) noexcept
+copy_assign_n(U* dst, U const* src, I n) noexcept(std::is_nothrow_copy_assignable<U>::value)
 {
     C4_ASSERT(dst != src);
     for(I i = 0; i < n; ++i)
@@ -178,7 +178,7 @@ copy_assign(U* dst, U src) noexcept // pass by value for scalar types
     *dst = src;
 }
 template<class U> C4_ALWAYS_INLINE typename std::enable_if< ! std::is_scalar<U>::value, void>::type
-copy_assign(U* dst, U const& src) noexcept // pass by reference for non-scalar types
+copy_assign(U* dst, U const& src) noexcept(std::is_nothrow_copy_assignable<U>::value) // pass by reference for non-scalar types
 {
     C4_ASSERT(dst != &src);
     *dst = src;
@@ -192,7 +192,7 @@ copy_assign_n(U* dst, U src, I n) noexcept // pass by value for scalar types
     }
 }
 template<class U, class I> C4_ALWAYS_INLINE typename std::enable_if< ! std::is_scalar<U>::value, void>::type
-copy_assign_n(U* dst, U const& src, I n) noexcept // pass by reference for non-scalar types
+copy_assign_n(U* dst, U const& src, I n) noexcept(std::is_nothrow_copy_assignable<U>::value) // pass by reference for non-scalar types
 {
     C4_ASSERT(dst != &src);
     for(I i = 0; i < n; ++i)
@@ -202,7 +202,7 @@ copy_assign_n(U* dst, U const& src, I n) noexcept // pass by reference for non-s
 }
 
 template<class U, size_t N>
-C4_ALWAYS_INLINE void copy_assign(U (&dst)[N], U const (&src)[N]) noexcept
+C4_ALWAYS_INLINE void copy_assign(U (&dst)[N], U const (&src)[N]) noexcept(std::is_nothrow_copy_assignable<U>::value)
 {
     copy_assign_n(dst, src, N);
 }
-- 
2.43.0


From 1b113a8811a188bf5cacc25bbb8fff4731012cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:09 +0000
Subject: [PATCH 17/35] fix: make_room() and destroy_room() end the lifetime of
 what they move from, and leave all in place for no room

---
 src/c4/ctor_dtor.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/c4/ctor_dtor.hpp b/src/c4/ctor_dtor.hpp
index 331e010..42a3ee6 100644
--- a/src/c4/ctor_dtor.hpp
+++ b/src/c4/ctor_dtor.hpp
@@ -318,11 +318,14 @@ template<class U, class I> C4_ALWAYS_INLINE typename std::enable_if< ! std::is_t
 make_room(U *buf, I bufsz, I room) C4_NOEXCEPT_A
 {
     C4_ASSERT(bufsz >= 0 && room >= 0);
+    if(room == 0)
+        return;
     if(room >= bufsz)
     {
         for(I i = 0; i < bufsz; ++i)
         {
             new ((void*)(buf + (i + room))) U(std::move(buf[i]));
+            buf[i].~U();
         }
     }
     else
@@ -331,6 +334,7 @@ make_room(U *buf, I bufsz, I room) C4_NOEXCEPT_A
         {
             I w = bufsz-1 - i; // do a backwards loop
             new ((void*)(buf + (w + room))) U(std::move(buf[w]));
+            buf[w].~U();
         }
     }
 }
@@ -412,6 +416,8 @@ destroy_room(U *buf, I n, I room)
 {
     C4_ASSERT(n >= 0 && room >= 0);
     C4_ASSERT(room <= n);
+    if(room == 0)
+        return;
     if(room < n)
     {
         for(I i = 0, e = n - room; i < e; ++i)
@@ -419,12 +425,10 @@ destroy_room(U *buf, I n, I room)
             buf[i] = std::move(buf[i + room]);
         }
     }
-    else
+    // the elements at the end were moved from, or are part of the room
+    for(I i = n - room; i < n; ++i)
     {
-        for(I i = 0; i < n; ++i)
-        {
-            buf[i].~U();
-        }
+        buf[i].~U();
     }
 }
 
-- 
2.43.0


From 6ff4d12d462f23107c8cf3bebf55f0b867cd415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:40 +0000
Subject: [PATCH 18/35] fix: hexadecimal reals are read into a clean value,
 with all digits, a binary exponent and no assertions on garbage

---
 src/c4/charconv.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 281e3c8..e36b9cd 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1974,12 +1974,9 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
 template<class T>
 C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
 {
-    C4_ASSERT(s.len > 0);
-    C4_ASSERT(s.str[0] != '-');
-    C4_ASSERT(s.str[0] != '+');
-    C4_ASSERT(!s.begins_with("0x"));
-    C4_ASSERT(!s.begins_with("0X"));
     size_t pos = 0;
+    bool has_digits = false;
+    *val = T(0);
     // integer part
     for( ; pos < s.len; ++pos)
     {
@@ -1987,9 +1984,9 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
         if(c >= '0' && c <= '9')
             *val = *val * T(16) + T(c - '0');
         else if(c >= 'a' && c <= 'f')
-            *val = *val * T(16) + T(c - 'a');
+            *val = *val * T(16) + T(10 + (c - 'a'));
         else if(c >= 'A' && c <= 'F')
-            *val = *val * T(16) + T(c - 'A');
+            *val = *val * T(16) + T(10 + (c - 'A'));
         else if(c == '.')
         {
             ++pos;
@@ -2004,6 +2001,7 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
         {
             return false;
         }
+        has_digits = true;
     }
     // mantissa
     {
@@ -2014,9 +2012,9 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
             if(c >= '0' && c <= '9')
                 *val += digit * T(c - '0');
             else if(c >= 'a' && c <= 'f')
-                *val += digit * T(c - 'a');
+                *val += digit * T(10 + (c - 'a'));
             else if(c >= 'A' && c <= 'F')
-                *val += digit * T(c - 'A');
+                *val += digit * T(10 + (c - 'A'));
             else if(c == 'p' || c == 'P')
             {
                 ++pos;
@@ -2026,20 +2024,22 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
             {
                 return false;
             }
+            has_digits = true;
         }
     }
-    return true;
+    return has_digits;
 power:
-    if(C4_LIKELY(pos < s.len))
+    if(C4_LIKELY(has_digits && pos < s.len))
     {
-        if(s.str[pos] == '+') // atoi() cannot handle a leading '+'
+        const bool neg = (s.str[pos] == '-');
+        if(neg || s.str[pos] == '+')
             ++pos;
         if(C4_LIKELY(pos < s.len))
         {
-            int16_t powval = {};
-            if(C4_LIKELY(atoi(s.sub(pos), &powval)))
+            int32_t powval = {};
+            if(C4_LIKELY(read_dec(s.sub(pos), &powval) && !overflows<int32_t>(s.sub(pos))))
             {
-                *val *= ipow<T, int16_t, 16>(powval);
+                *val = std::ldexp(*val, neg ? -powval : powval);
                 return true;
             }
         }
-- 
2.43.0


From f97f2cd994ad819b2adf6f53ca4b2e47aa6cd057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:36 +0000
Subject: [PATCH 19/35] fix: from_chars_first(substr*) sets the length of what
 it read, as from_chars() does

---
 src/c4/charconv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index e36b9cd..1bec173 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2643,6 +2643,7 @@ inline size_t from_chars_first(csubstr buf, substr * C4_RESTRICT v) noexcept
     }
     if(C4_UNLIKELY(trimmed.len > v->len))
         return csubstr::npos;
+    v->len = trimmed.len;
     return static_cast<size_t>(trimmed.end() - buf.begin());
 }
 
-- 
2.43.0


From 298917be96cbf0601669ee39b808d55dc58b2b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:06 +0000
Subject: [PATCH 20/35] fix: from_chars_first(T**) returns the number of
 characters read, and npos on failure

---
 src/c4/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 1bec173..c55dc76 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2412,7 +2412,7 @@ C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf,   double *C4_RESTRICT v) n
 template <class T> _C4_IF_NOT_FIXED_LENGTH_I(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atoi_first(buf, v); }
 template <class T> _C4_IF_NOT_FIXED_LENGTH_U(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atou_first(buf, v); }
 template <class T>
-C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; bool ret = from_chars_first(buf, &tmp); if(ret) { *v = (T*)tmp; } return ret; }
+C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; size_t ret = from_chars_first(buf, &tmp); if(ret != csubstr::npos) { *v = (T*)tmp; } return ret; }
 
 /** @} */
 
-- 
2.43.0


From a72ecb3a8991bf4ba0216d062142cd045d51156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:30 +0000
Subject: [PATCH 21/35] fix: from_chars_first(raw) returns the number of
 characters read

---
 src/c4/format.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 7fb03fa..e1870be 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -478,13 +478,17 @@ inline bool from_chars(csubstr buf, fmt::raw_wrapper r)
  * @ingroup doc_from_chars_first */
 inline size_t from_chars_first(csubstr buf, fmt::raw_wrapper *r)
 {
-    return from_chars(buf, r);
+    if(C4_UNLIKELY(!from_chars(buf, r)))
+        return csubstr::npos;
+    // account for the characters skipped to reach the alignment
+    const size_t misaligned = static_cast<size_t>(reinterpret_cast<uintptr_t>(buf.str) & (r->alignment - 1)); // NOLINT
+    return (misaligned ? r->alignment - misaligned : 0) + r->len;
 }
 /** read a variable in raw binary format, using memcpy
  * @ingroup doc_from_chars_first */
 inline size_t from_chars_first(csubstr buf, fmt::raw_wrapper r)
 {
-    return from_chars(buf, &r);
+    return from_chars_first(buf, &r);
 }
 
 
-- 
2.43.0


From 604d3e3be17c4a77341876b36539f4c27926a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:21 +0000
Subject: [PATCH 22/35] fix: from_chars_first(bool*) reads only the first word,
 and counts the whitespace it skips

---
 src/c4/charconv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index c55dc76..d7741d4 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2501,9 +2501,9 @@ inline bool from_chars(csubstr buf, bool * C4_RESTRICT v) noexcept
 inline size_t from_chars_first(csubstr buf, bool * C4_RESTRICT v) noexcept
 {
     csubstr trimmed = buf.first_non_empty_span();
-    if(trimmed.len == 0 || !from_chars(buf, v))
+    if(trimmed.len == 0 || !from_chars(trimmed, v))
         return csubstr::npos;
-    return trimmed.len;
+    return static_cast<size_t>(trimmed.end() - buf.begin());
 }
 
 
-- 
2.43.0


From 5589a1e5baf9e8a76cbd8a0563e3cc8f1f86a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:50 +0000
Subject: [PATCH 23/35] fix: base64_valid() accepts padding only at the end

---
 src/c4/base64.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/c4/base64.cpp b/src/c4/base64.cpp
index 7f8b339..7bf3f5f 100644
--- a/src/c4/base64.cpp
+++ b/src/c4/base64.cpp
@@ -98,12 +98,17 @@ bool base64_valid(csubstr encoded)
 {
     if(encoded.len & 3u) // (encoded.len % 4u)
         return false;
+    // there can be one or two padding characters, only at the end
+    if(encoded.len && encoded.back() == '=')
+    {
+        encoded = encoded.offs(0, 1);
+        if(encoded.back() == '=')
+            encoded = encoded.offs(0, 1);
+    }
     for(const char c : encoded)
     {
         if(c < 0/* || c >= 128*/)
             return false;
-        if(c == '=')
-            continue;
         if(detail::base64_char_to_sextet_[c] == char(-1))
             return false;
     }
-- 
2.43.0


From 360096e48c6e89bfd14f49d05ff1f3106af1b127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:33 +0000
Subject: [PATCH 24/35] fix: unformat() fails when the text is shorter than the
 format

---
 src/c4/format.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index e1870be..104cb9d 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -853,9 +853,9 @@ substr format_sub(substr buf, csubstr fmt, Args const& C4_RESTRICT ...args)
 
 /// @cond dev
 // terminates the variadic recursion
-inline size_t unformat(csubstr /*buf*/, csubstr fmt)
+inline size_t unformat(csubstr buf, csubstr fmt)
 {
-    return fmt.len;
+    return buf.len >= fmt.len ? fmt.len : csubstr::npos;
 }
 /// @endcond
 
@@ -872,7 +872,9 @@ size_t unformat(csubstr buf, csubstr fmt, Arg & C4_RESTRICT a, Args & C4_RESTRIC
         return unformat(buf, fmt);
     size_t num = pos;
     size_t out = num;
-    buf  = buf.len >= num ? buf.sub(num) : substr{};
+    if(C4_UNLIKELY(buf.len < num))
+        return csubstr::npos;
+    buf  = buf.sub(num);
     num  = from_chars_first(buf, &a);
     if(C4_UNLIKELY(num == csubstr::npos))
         return csubstr::npos;
-- 
2.43.0


From 9bc8f70017ffdd92904470324ba85a64c02102d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:19 +0000
Subject: [PATCH 25/35] fix: overflows<signed>() does not read past a lone
 minus sign

---
 src/c4/charconv.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index d7741d4..54acf8b 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1722,6 +1722,8 @@ auto overflows(csubstr str)
         return false;
     if(str.str[0] == '-')
     {
+        if(C4_UNLIKELY(str.len == 1))
+            return false;
         if(str.str[1] == '0')
         {
             if(str.len == 2)
-- 
2.43.0


From 30f17c21cb5a33cf2abd8aa9ef2ec584413d8ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:32 +0000
Subject: [PATCH 26/35] fix: reading a signed integer or bool from text
 starting with '+' fails instead of asserting

---
 src/c4/charconv.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 54acf8b..117f7f9 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1441,8 +1441,8 @@ C4_SUPPRESS_WARNING_GCC_POP
  *
  * @return true if the conversion was successful.
  *
- * @note a positive sign is not accepted. ie, the string must not
- * start with '+'
+ * @note a positive sign is not accepted: the return status is false
+ * if the string starts with '+'
  *
  * @note overflow is not detected: the return status is true even if
  * the conversion would return a value outside of the type's range, in
@@ -1461,8 +1461,6 @@ C4_ALWAYS_INLINE bool atoi(csubstr str, T * C4_RESTRICT v) noexcept
     if(C4_UNLIKELY(str.len == 0))
         return false;
 
-    C4_ASSERT(str.str[0] != '+');
-
     T sign = 1;
     size_t start = 0;
     if(str.str[0] == '-')
-- 
2.43.0


From 635fef3e7546be542084ccef58af50f777e343b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:14 +0000
Subject: [PATCH 27/35] fix: looking up an enum symbol by name and length
 matches the whole name, not its start

---
 src/c4/enum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/enum.hpp b/src/c4/enum.hpp
index ae12f51..85eee18 100644
--- a/src/c4/enum.hpp
+++ b/src/c4/enum.hpp
@@ -240,7 +240,7 @@ bool EnumSymbols<Enum>::Sym::cmp(const char *s) const
 template<class Enum>
 bool EnumSymbols<Enum>::Sym::cmp(const char *s, size_t len) const
 {
-    if(strncmp(name, s, len) == 0)
+    if(strncmp(name, s, len) == 0 && strlen(name) == len) // the whole name, not just its start
         return true;
 
     size_t nlen = 0;
-- 
2.43.0


From 28009e323b3fc5f2957b6cfaf2f1f5c4117a1000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:43 +0000
Subject: [PATCH 28/35] fix: str2bm() raises an error for empty symbols instead
 of reading a null or stale pointer

---
 src/c4/bitmask.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index a4190d5..328d50f 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -291,7 +291,7 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         }
         else if(c == '|' || c == '\0')
         {
-            C4_ASSERT(num != alnum);
+            C4_CHECK_MSG(num != alnum, "empty symbol in bitmask string");
             C4_ASSERT(pc >= f);
             val |= detail::str2bm_read_one<Enum>(f, static_cast<size_t>(pc-f), alnum);
             started = num = alnum = false;
@@ -308,7 +308,7 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
 
     if(f)
     {
-        C4_ASSERT(num != alnum);
+        C4_CHECK_MSG(num != alnum, "empty symbol in bitmask string");
         C4_ASSERT(pc >= f);
         val |= detail::str2bm_read_one<Enum>(f, static_cast<size_t>(pc-f), alnum);
     }
-- 
2.43.0


From 39362f41c13b9cc323d218456d6ee7b8d4b23391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:02 +0000
Subject: [PATCH 29/35] fix: itoa() and utoa() report the whole size for
 paddings that do not fit an unsigned int

---
 src/c4/charconv.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 117f7f9..c6149ce 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1236,18 +1236,18 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
                 buf.str[pos] = '-';
             ++pos;
         }
-        unsigned total_digits = 0;
+        size_t total_digits = 0;
         switch(radix)
         {
         case T(10):
             total_digits = digits_dec(v);
-            total_digits = pos + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
                 write_dec(buf.sub(pos), v, num_digits);
             break;
         case T(16):
             total_digits = digits_hex(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 buf.str[pos + 0] = '0';
@@ -1257,7 +1257,7 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             break;
         case T(2):
             total_digits = digits_bin(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 buf.str[pos + 0] = '0';
@@ -1267,7 +1267,7 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             break;
         case T(8):
             total_digits = digits_oct(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 buf.str[pos + 0] = '0';
@@ -1376,18 +1376,18 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
 {
     C4_STATIC_ASSERT(std::is_unsigned<T>::value);
     C4_ASSERT(radix == 10 || radix == 16 || radix == 2 || radix == 8);
-    unsigned total_digits = 0;
+    size_t total_digits = 0;
     switch(radix)
     {
     case T(10):
         total_digits = digits_dec(v);
-        total_digits = (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
             write_dec(buf, v, num_digits);
         break;
     case T(16):
         total_digits = digits_hex(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
@@ -1397,7 +1397,7 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
         break;
     case T(2):
         total_digits = digits_bin(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
@@ -1407,7 +1407,7 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
         break;
     case T(8):
         total_digits = digits_oct(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
-- 
2.43.0


From be7ba7888e04b4d61ed86c85bce0bff0e7ab7ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:46 +0000
Subject: [PATCH 30/35] fix: hexadecimal reals are read also with
 std::from_chars(), instead of as zero

---
 src/c4/charconv.hpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index c6149ce..f1a87c7 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1918,6 +1918,28 @@ inline size_t scan_one(csubstr str, const char *type_fmt, T *v)
 #endif // (!C4CORE_HAVE_STD_FROMCHARS) && (!C4CORE_HAVE_FAST_FLOAT)
 
 
+#if C4CORE_HAVE_STD_FROMCHARS && (!C4CORE_HAVE_FAST_FLOAT)
+/** reads a real, which may be hexadecimal: std::from_chars() needs to
+ * be told about that, and accepts no prefix */
+template<typename T>
+inline bool scan_std(csubstr str, T *v) noexcept
+{
+    bool isneg = (str.str[0] == '-');
+    csubstr rem = str.sub(isneg || str.str[0] == '+');
+    if(!(rem.len >= 2 && (rem.str[0] == '0' && (rem.str[1] == 'x' || rem.str[1] == 'X'))))
+        return std::from_chars(str.begin(), str.end(), *v).ec == std::errc();
+    rem = rem.sub(2);
+    if(!rem.begins_with_any("0123456789abcdefABCDEF."))
+        return false;
+    if(std::from_chars(rem.begin(), rem.end(), *v, std::chars_format::hex).ec != std::errc())
+        return false;
+    if(isneg)
+        *v = -*v;
+    return true;
+}
+#endif // C4CORE_HAVE_STD_FROMCHARS && (!C4CORE_HAVE_FAST_FLOAT)
+
+
 #if C4CORE_HAVE_STD_TOCHARS
 template<class T>
 C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e formatting=FTOA_FLEX) noexcept
@@ -2139,9 +2161,7 @@ C4_ALWAYS_INLINE bool atof(csubstr str, float * C4_RESTRICT v) noexcept
     }
     return false;
 #elif C4CORE_HAVE_STD_FROMCHARS
-    std::from_chars_result result;
-    result = std::from_chars(str.str, str.str + str.len, *v);
-    return result.ec == std::errc();
+    return detail::scan_std(str, v);
 #else
     csubstr rem = str.sub(str.str[0] == '-' || str.str[0] == '+');
     if(!(rem.len >= 2 && (rem.str[0] == '0' && (rem.str[1] == 'x' || rem.str[1] == 'X'))))
@@ -2200,9 +2220,7 @@ C4_ALWAYS_INLINE bool atod(csubstr str, double * C4_RESTRICT v) noexcept
     }
     return false;
 #elif C4CORE_HAVE_STD_FROMCHARS
-    std::from_chars_result result;
-    result = std::from_chars(str.str, str.str + str.len, *v);
-    return result.ec == std::errc();
+    return detail::scan_std(str, v);
 #else
     csubstr rem = str.sub(str.str[0] == '-' || str.str[0] == '+');
     if(!(rem.len >= 2 && (rem.str[0] == '0' && (rem.str[1] == 'x' || rem.str[1] == 'X'))))
-- 
2.43.0


From 203144aad30202fd25afb8c32d7a54db3225667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:41 +0000
Subject: [PATCH 31/35] fix: reading reals with sscanf() does not read past the
 end of the view

---
 src/c4/charconv.hpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index f1a87c7..fab8573 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -99,6 +99,7 @@
 
 #if !C4CORE_HAVE_STD_FROMCHARS
 #include <cstdio>
+#include <cstdlib>
 #endif
 
 
@@ -1890,26 +1891,27 @@ inline size_t scan_one(csubstr str, const char *type_fmt, T *v)
      * str.len is strictly respected, because substr is
      * generally not null-terminated.
      *
-     * Alas, there is no snscanf().
-     *
-     * So we fake it by using a dynamic format with an explicit
-     * field size set to the length of the given span.
-     * This trick is taken from:
-     * https://stackoverflow.com/a/18368910/5875572 */
+     * Alas, there is no snscanf(), and an explicit field size is not
+     * enough: implementations look for the null terminator before
+     * starting to scan. So scan a null-terminated copy. */
+    char local[512];
+    char *copy = str.len < sizeof(local) ? local : (char*) std::malloc(str.len + 1);
+    if(copy == nullptr)
+        return csubstr::npos;
+    memcpy(copy, str.str, str.len);
+    copy[str.len] = '\0';
 
-    /* this is the actual format we'll use for scanning */
+    /* also get the number of characters read from the string,
+     * so the final format ends up as eg "%f%n" */
     char fmt[16];
-
-    /* write the length into it. Eg "%12f".
-     * Also, get the number of characters read from the string.
-     * So the final format ends up as "%12f%n"*/
-    int iret = std::snprintf(fmt, sizeof(fmt), "%%" "%zu" "%s" "%%n", str.len, type_fmt);
+    int iret = std::snprintf(fmt, sizeof(fmt), "%%" "%s" "%%n", type_fmt);
     /* no nasty surprises, please! */
     C4_ASSERT(iret >= 0 && size_t(iret) < C4_COUNTOF(fmt));
 
-    /* now we scan with confidence that the span length is respected */
     int num_chars;
-    iret = std::sscanf(str.str, fmt, v, &num_chars);
+    iret = std::sscanf(copy, fmt, v, &num_chars);
+    if(copy != local)
+        std::free(copy);
     /* scanf returns the number of successful conversions */
     if(iret != 1) return csubstr::npos;
     C4_ASSERT(num_chars >= 0);
-- 
2.43.0


From 55ebe2098bd25ff2f0cfc79daadcd4a124bd7dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:15 +0000
Subject: [PATCH 32/35] fix: do not read binary and octal reals as zero

first_real_span() recognizes 0b1.1 and 0o1.7, but atof()/atod() read only
their leading zero, and reported success: from_chars_first("0b11", &d)
answered that 4 characters had been read, with the value 0.
---
 src/c4/charconv.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index fab8573..69fd544 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1994,6 +1994,17 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
 #endif // C4CORE_HAVE_STD_TOCHARS
 
 
+/** true when the string is a binary or octal real, eg 0b1.1 or 0o1.7.
+ * These are recognized by first_real_span(), but cannot be read by
+ * any of the functions used to read reals. */
+inline bool is_bin_or_oct_real(csubstr str) noexcept
+{
+    csubstr rem = str.sub(str.str[0] == '-' || str.str[0] == '+');
+    return rem.len >= 2 && rem.str[0] == '0'
+        && (rem.str[1] == 'b' || rem.str[1] == 'B' || rem.str[1] == 'o' || rem.str[1] == 'O');
+}
+
+
 #if C4CORE_HAVE_FAST_FLOAT
 template<class T>
 C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
@@ -2146,6 +2157,8 @@ C4_ALWAYS_INLINE bool atof(csubstr str, float * C4_RESTRICT v) noexcept
 {
     C4_ASSERT(str.len > 0);
     C4_ASSERT(str.triml(" \r\t\n").len == str.len);
+    if(C4_UNLIKELY(detail::is_bin_or_oct_real(str)))
+        return false;
 #if C4CORE_HAVE_FAST_FLOAT
     // fastfloat cannot parse hexadecimal floats
     bool isneg = (str.str[0] == '-');
@@ -2205,6 +2218,8 @@ C4_ALWAYS_INLINE bool atod(csubstr str, double * C4_RESTRICT v) noexcept
 {
     C4_ASSERT(str.len > 0);
     C4_ASSERT(str.triml(" \r\t\n").len == str.len);
+    if(C4_UNLIKELY(detail::is_bin_or_oct_real(str)))
+        return false;
 #if C4CORE_HAVE_FAST_FLOAT
     // fastfloat cannot parse hexadecimal floats
     bool isneg = (str.str[0] == '-');
-- 
2.43.0


From 09f658fddd7a7d700f754e5c44033f4241d12b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:52 +0000
Subject: [PATCH 33/35] fix: fmt::left() and fmt::right() do not put a NUL in
 the text of reals

Without floating point charconv, reals are written with snprintf(), which
adds a NUL. left() wrote the value again after padding, so that the NUL
replaced the first padding character; right() wrote it at the very end of
the buffer, so that the NUL replaced the last digit.
---
 src/c4/format.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 104cb9d..2d1788d 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -552,7 +552,6 @@ size_t to_chars(substr buf, fmt::left_<T> const& C4_RESTRICT align)
     if(ret >= align.width || align.width > buf.len)
         return ret > align.width ? ret : align.width;
     buf.first(align.width).sub(ret).fill(align.pad);
-    to_chars(buf, align.val);
     return align.width;
 }
 
@@ -564,8 +563,8 @@ size_t to_chars(substr buf, fmt::right_<T> const& C4_RESTRICT align)
     if(ret >= align.width || align.width > buf.len)
         return ret > align.width ? ret : align.width;
     size_t rem = static_cast<size_t>(align.width - ret);
+    memmove(buf.str + rem, buf.str, ret);
     buf.first(rem).fill(align.pad);
-    to_chars(buf.sub(rem), align.val);
     return align.width;
 }
 
-- 
2.43.0


From c8da5235d8e9a2f41fafd2b2420590626c0dbc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:18 +0000
Subject: [PATCH 34/35] fix: substr: left_of()/right_of() with the position at
 the end stay inside the string

The assertions accept pos==len, but right_of(len) gave a view of length
SIZE_MAX past the end, and left_of(len, true) one character too many.
The assertion in offs() also let through left+right==len+1, which has the
same effect.
---
 src/c4/substr.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 7a1e4fc..5ffc4dd 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -368,7 +368,7 @@ public:
     {
         C4_ASSERT(left  >= 0 && left  <= len);
         C4_ASSERT(right >= 0 && right <= len);
-        C4_ASSERT(left  <= len - right + 1);
+        C4_ASSERT(left  <= len - right);
         return basic_substring(str + left, len - right - left);
     }
 
@@ -385,7 +385,7 @@ public:
     C4_ALWAYS_INLINE C4_PURE basic_substring left_of(size_t pos, bool include_pos) const noexcept
     {
         C4_ASSERT(pos <= len || pos == npos);
-        return (pos != npos) ?
+        return (pos < len) ? // there is nothing to include at the end
             basic_substring(str, pos+include_pos) :
             *this;
     }
@@ -394,7 +394,7 @@ public:
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos) const noexcept
     {
         C4_ASSERT(pos <= len || pos == npos);
-        return (pos != npos) ?
+        return (pos < len) ? // nothing lies to the right of the end
             basic_substring(str + (pos + 1), len - (pos + 1)) :
             basic_substring(str + len, size_t(0));
     }
@@ -403,7 +403,7 @@ public:
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos, bool include_pos) const noexcept
     {
         C4_ASSERT(pos <= len || pos == npos);
-        return (pos != npos) ?
+        return (pos < len) ? // nothing lies to the right of the end
             basic_substring(str + (pos + !include_pos), len - (pos + !include_pos)) :
             basic_substring(str + len, size_t(0));
     }
-- 
2.43.0


From 956d2ee1df3470b099b902ec2158bd378bed5eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:47 +0000
Subject: [PATCH 35/35] fix: span: rend() of a span of non-const elements did
 not compile

---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 43bb633..6efdc22 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -83,7 +83,7 @@ public:
     C4_ALWAYS_INLINE const_reverse_iterator  rbegin() const noexcept { return reverse_iterator(_c4cptr + _c4csz); }
     C4_ALWAYS_INLINE const_reverse_iterator crbegin() const noexcept { return reverse_iterator(_c4cptr + _c4csz); }
 
-    C4_ALWAYS_INLINE       reverse_iterator  rend()       noexcept { return const_reverse_iterator(_c4ptr); }
+    C4_ALWAYS_INLINE       reverse_iterator  rend()       noexcept { return reverse_iterator(_c4ptr); }
     C4_ALWAYS_INLINE const_reverse_iterator  rend() const noexcept { return const_reverse_iterator(_c4cptr); }
     C4_ALWAYS_INLINE const_reverse_iterator crend() const noexcept { return const_reverse_iterator(_c4cptr); }
 
-- 
2.43.0

