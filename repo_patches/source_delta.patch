From 7d242bfdfd2cff90cb7bcae98349b3a339f31792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:31 +0000
Subject: [PATCH 01/46] fix: set/insert_unsigned(int64) must store into
 unsigned fields, not signed ones

---
 fast_positive/tuples/details/rw.h | 2 +-
 src/rw.cxx                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 5590fdb..e47489c 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -524,7 +524,7 @@ public:
     void set_unsigned(const int64_t value) {
       if (unlikely(value < 0))
         throw_value_range();
-      return set_integer(static_cast<uint64_t>(value));
+      return set_unsigned(static_cast<uint64_t>(value));
     }
 
     void set_int128(const int128_t &value) {
diff --git a/src/rw.cxx b/src/rw.cxx
index 374d3de..dfd9666 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -315,7 +315,7 @@ FPTU_API dynamic_collection_iterator_rw
 tuple_rw::insert_unsigned(const token &ident, const int64_t value) {
   if (unlikely(value < 0))
     throw_value_range();
-  return insert_integer(ident, static_cast<uint64_t>(value));
+  return insert_unsigned(ident, static_cast<uint64_t>(value));
 }
 
 FPTU_API dynamic_collection_iterator_rw
-- 
2.43.0


From f86256e214640014362544b4cad756b2430ce49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:31 +0000
Subject: [PATCH 02/46] fix: set/insert_int128/uint128 refuse values beyond 64
 bits instead of truncating

---
 fast_positive/tuples/details/rw.h | 4 ++++
 src/rw.cxx                        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index e47489c..0d67786 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -531,6 +531,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != int128_t(int64_t(value))))
+        throw_value_range();
       return set_integer(int64_t(value));
     }
 
@@ -538,6 +540,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != uint128_t(uint64_t(value))))
+        throw_value_range();
       return set_unsigned(uint64_t(value));
     }
 
diff --git a/src/rw.cxx b/src/rw.cxx
index dfd9666..0937fcd 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -323,6 +323,8 @@ tuple_rw::insert_int128(const token &ident, const int128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != int128_t(int64_t(value))))
+    throw_value_range();
   return insert_integer(ident, int64_t(value));
 }
 
@@ -331,6 +333,8 @@ tuple_rw::insert_uint128(const token &ident, const uint128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != uint128_t(uint64_t(value))))
+    throw_value_range();
   return insert_unsigned(ident, uint64_t(value));
 }
 
-- 
2.43.0


From 604d4877ff88ac3c1654357585e50a6b8d63e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 03/46] fix: length of a binary value whose size is not a
 multiple of the unit

The stored tail was added on top of the last (partial) unit, so values of
e.g. 1 byte were read back as 5 bytes, beyond the end of the payload.
---
 fast_positive/tuples/details/field.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/field.h b/fast_positive/tuples/details/field.h
index 5a05fb2..215968c 100644
--- a/fast_positive/tuples/details/field.h
+++ b/fast_positive/tuples/details/field.h
@@ -121,7 +121,8 @@ union stretchy_value_varbin {
     static_assert(8 - genus_bitness == 3, "Oops");
     const std::size_t tailbytes = reserved14_tailbytes & 3;
     constexpr_assert(brutto_units > 1 || tailbytes == 0);
-    return units2bytes(brutto_units) - 4 + tailbytes;
+    /* the last unit is full when tailbytes == 0 */
+    return units2bytes(brutto_units) - 4 - ((4 - tailbytes) & 3);
   }
 
   static std::size_t estimate_space(const string_view &value) {
-- 
2.43.0


From ec0e2e71985c60ba13c648368dd29e8114cc3d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:16 +0000
Subject: [PATCH 04/46] fix: do not read past the end of an IP network value
 while storing it

---
 fast_positive/tuples/details/meta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/meta.h b/fast_positive/tuples/details/meta.h
index 9a367a3..f6eb797 100644
--- a/fast_positive/tuples/details/meta.h
+++ b/fast_positive/tuples/details/meta.h
@@ -241,7 +241,7 @@ template <unsigned N, typename TYPE = uint32_t[N]> struct unit_n {
   static void write(details::field_preplaced *preplaced,
                     return_type value) cxx11_noexcept {
     static_assert(sizeof(value_type) <= preplaced_bytes, "WTF?");
-    std::memcpy(preplaced->bytes, &value, preplaced_bytes);
+    std::memcpy(preplaced->bytes, &value, sizeof(value_type));
     if (preplaced_bytes != sizeof(value_type))
       std::memset(preplaced->bytes + sizeof(value_type), 0,
                   preplaced_bytes - sizeof(value_type));
@@ -267,7 +267,7 @@ template <unsigned N, typename TYPE = uint32_t[N]> struct unit_n {
 #endif /* GNU C >= 10.x */
 
     static_assert(sizeof(ptr->fixed) >= preplaced_bytes, "WTF?");
-    std::memcpy(&ptr->fixed.words, &value, preplaced_bytes);
+    std::memcpy(&ptr->fixed.words, &value, sizeof(value_type));
     if (preplaced_bytes != sizeof(value_type))
       std::memset(ptr->fixed.bytes + sizeof(value_type), 0,
                   preplaced_bytes - sizeof(value_type));
-- 
2.43.0


From c5b1d693d2f115f639dbb1def200800fbf3411d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:33 +0000
Subject: [PATCH 05/46] fix: presence test of a preplaced field was inverted

---
 fast_positive/tuples/details/getter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 725e281..83d8bdc 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -211,7 +211,7 @@ public:
 
   cxx11_constexpr bool exist() const cxx11_noexcept {
     return token_.is_preplaced()
-               ? static_cast<const field_preplaced *>(field_)->is_null(
+               ? !static_cast<const field_preplaced *>(field_)->is_null(
                      token_.tag())
                : field_ != nullptr;
   }
-- 
2.43.0


From 084a9f6ec0e1586ef4c3449bf285af58157bde7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:28 +0000
Subject: [PATCH 06/46] fix: schema lookup of a loose field missed the one in
 the middle of the binary search

---
 src/schema.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/schema.cxx b/src/schema.cxx
index e1b30cf..288a727 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -432,6 +432,9 @@ schema::by_loose(const details::field_loose *field) const cxx11_noexcept {
       ++iter;
       __fallthrough /* fall through */;
     case 0:
+      if (iter != sorted_tokens_.end() &&
+          details::tag2genus_and_id(iter->tag()) == field->genus_and_id)
+        return *iter;
       break;
     default:
       assert(false);
-- 
2.43.0


From 38c41f1032b61dd8ca408645db698300ca769436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:28 +0000
Subject: [PATCH 07/46] fix: importing a preplaced field below the end of the
 schema's image

---
 src/schema.cxx | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index 288a727..fe8646a 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -148,8 +148,9 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
         throw_schema_definition_error(
             "preplaced field is overlapped by another");
     }
-    preplaced_image_.reserve(ident.preplaced_offset() + ident.preplaced_size() -
-                             preplaced_image_.size());
+    preplaced_image_.reserve(
+        std::max(preplaced_image_.size(),
+                 ident.preplaced_offset() + ident.preplaced_size()));
   }
   sorted_tokens_.reserve(sorted_tokens_.size() + 1);
   name2token_.reserve(name2token_.size() + 1);
@@ -157,18 +158,17 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
 
   try {
     if (ident.is_preplaced()) {
-      if (ident.preplaced_offset() > ptrdiff_t(preplaced_image_.size()))
-        preplaced_image_.append(
-            ident.preplaced_offset() - preplaced_image_.size(), '\0');
+      const std::size_t offset = ident.preplaced_offset();
+      if (offset + ident.preplaced_size() > preplaced_image_.size())
+        preplaced_image_.resize(offset + ident.preplaced_size(), '\0');
       if (initial_value)
-        preplaced_image_.append(static_cast<const char *>(initial_value),
-                                ident.preplaced_size());
+        preplaced_image_.replace(offset, ident.preplaced_size(),
+                                 static_cast<const char *>(initial_value),
+                                 ident.preplaced_size());
       else {
-        preplaced_image_.append(ident.preplaced_size(), '\0');
         const auto initial_value_ptr =
             erthink::constexpr_pointer_cast<details::field_preplaced *>(
-                const_cast<char *>(preplaced_image_.data()) +
-                ident.preplaced_offset());
+                const_cast<char *>(preplaced_image_.data()) + offset);
         details::preplaced_erase(ident.type(), initial_value_ptr,
                                  ident.is_discernible_null());
       }
-- 
2.43.0


From 93810b2b49870d30921bc59e3a3b5b07fef39548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:57 +0000
Subject: [PATCH 08/46] fix: a partially reused hole kept overlapping the field
 placed in it

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index c8b921f..9238d4d 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -297,7 +297,7 @@ field_loose *gear::alloc_loose(const tag_t tag, unsigned units) {
   field_loose *loose = index_alloc(units);
   loose->genus_and_id = uint16_t(tag);
   loose->relative.set_payload(hole->hole_begin());
-  hole->relative.add_delta(excess);
+  hole->relative.add_delta(units);
   hole->hole_set_units(excess);
   junk_.volume -= uint16_t(units);
   mark_unsorted();
-- 
2.43.0


From 98bd6897254438d17f9edce25325fb82c53ccb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:57 +0000
Subject: [PATCH 09/46] fix: sorting the index wrote a second, uninitialized
 set of entries

---
 src/gear.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 9238d4d..8e13b45 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -920,7 +920,8 @@ bool gear::sort(onstack_allocation_arena &onstack_arena) {
     return false;
   }
 
-  sort_vector vector(index_size(), onstack_arena);
+  sort_vector vector(onstack_arena);
+  vector.reserve(index_size());
   const unit_t *const basis = &area_[head_];
   /* заполняем вектор */
   for (field_loose *loose = begin_index(); loose < end_index(); ++loose)
-- 
2.43.0


From 2fb27bfd82f06628157fea9324f9536cf0398edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:57 +0000
Subject: [PATCH 10/46] fix: compaction must not give a payload to an empty
 loose field

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 8e13b45..408f2cc 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -780,7 +780,7 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           !is_inplaced(src->type()) && src->relative.have_payload();
       if (src != dst) {
         dst->loose_header = src->loose_header;
-        if (!is_inplaced(src->type()))
+        if (!is_inplaced(src->type()) && src->relative.have_payload())
           dst->relative.sub_delta(dst - src);
       }
       --dst;
-- 
2.43.0


From e3fbb4da4e3ddda057524c1f1321bb66362bd849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:57 +0000
Subject: [PATCH 11/46] fix: compaction moved the payload of absent preplaced
 fields

---
 src/gear.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 408f2cc..8c88e26 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -832,7 +832,8 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           const field_preplaced *const preplaced =
               erthink::constexpr_pointer_cast<const field_preplaced *>(
                   begin_data_bytes() + ident.preplaced_offset());
-          vector.emplace_back(basis, ident.type(), preplaced);
+          if (preplaced->relative.have_payload())
+            vector.emplace_back(basis, ident.type(), preplaced);
         }
       }
     }
-- 
2.43.0


From 2004d104f9c4b1635c7b19553dcc021d2bfb8f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:57 +0000
Subject: [PATCH 12/46] fix: give the space back when a field swapped with a
 hole was the last one

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 8c88e26..0b32d4a 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -588,7 +588,7 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
       junk_.volume += uint16_t(have - needed);
 
       /* если дырка примыкает к концу данных, то её нужно "испарить" */
-      if (chunk == end_data_units()) {
+      if (chunk + have == end_data_units()) {
         /* возвращем место в нераспределенное */
         tail_ -= have;
         junk_.volume -= uint16_t(have);
-- 
2.43.0


From 427dbd6f5b13b3923c0ecfe2bde6c5daef638816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:57 +0000
Subject: [PATCH 13/46] fix: a failed release of a preplaced field's data must
 not change the junk counters

---
 src/gear.cxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 0b32d4a..48d5277 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -389,6 +389,14 @@ gear::release_data(relative_payload *chunk, unsigned units,
     return nullptr;
   }
 
+  if (!before_after.first && !before_after.second && hole0 == nullptr) {
+    /* не нашлось соседних дырок для объединения с куском, потребуется новая.
+     * Место в индексе запрашиваем до изменения счетчиков, так как может
+     * выскочить исключение */
+    hole0 = index_alloc(0);
+    junk_.count += 1;
+  }
+
   /* добавляем в счетчики, чтобы прошли проверки внутри merge и trim */
   junk_.volume += uint16_t(units);
 
@@ -413,10 +421,6 @@ gear::release_data(relative_payload *chunk, unsigned units,
     /* не нашлось соседних дырок для объединения с куском */
     assert(chunk->flat + units != end_data_units());
     /* кусок НЕ может примыкать к концу данных, оформляем дыркой */
-    if (hole0 == nullptr) {
-      hole0 = index_alloc(0);
-      junk_.count += 1;
-    }
     hole0->hole_set_units(units);
     hole0->relative.set_payload(chunk);
     return hole0;
-- 
2.43.0


From c54b8fd59daff6d2744409dbcc336b5418beb648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:59 +0000
Subject: [PATCH 14/46] fix: keep the junk counters when a tuple moves into a
 larger buffer

---
 src/autogrowth.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 88634e8..ecdcea5 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -188,6 +188,7 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
 
   new_tuple->head_ = new_tuple->pivot_ - (pimpl_->pivot_ - pimpl_->head_);
   new_tuple->tail_ = new_tuple->pivot_ + (pimpl_->tail_ - pimpl_->pivot_);
+  new_tuple->junk_ = pimpl_->junk_;
   std::memcpy(static_cast<void *>(new_tuple->begin_index()),
               pimpl_->begin_index(),
               details::units2bytes(pimpl_->tail_ - pimpl_->head_));
-- 
2.43.0


From 49a511f689e6f9fa863cae1f5b710b30aa13ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:59 +0000
Subject: [PATCH 15/46] fix: netto size of a tuple subtracted units from bytes

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 0d67786..a52fe22 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1132,7 +1132,7 @@ public: //----------------------------------------------------------------------
     return units2bytes(tail_ - head_ + /* header */ 1);
   }
   __pure_function std::size_t netto_size() const cxx11_noexcept {
-    return brutto_size() - junk_units();
+    return brutto_size() - junk_bytes();
   }
   __pure_function std::size_t capacity() const cxx11_noexcept {
     return units2bytes(end_);
-- 
2.43.0


From d7168c9d344f1175716caa74fa9d91deda9918bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:09 +0000
Subject: [PATCH 16/46] fix: a clone with a schema was the one made without
 validation

---
 src/managed.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index 928b566..e84b218 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -470,7 +470,7 @@ tuple_ro_managed tuple_ro_managed::clone(const tuple_ro_weak &src,
       /* если схема не задана, то считаем что необходимые проверки были
          сделаны при создании tuple_ro_weak, иначе выполняем повторную
          проверку для исключения несоответствия схеме */
-      schema == nullptr);
+      schema != nullptr);
   if (wanna_validation)
     return tuple_ro_managed(tuple_rw_fixed(
         src.data(), src.size(),
-- 
2.43.0


From 8dee98c6e8c2edcda9390beeb612d6bcd929388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:09 +0000
Subject: [PATCH 17/46] fix: a clone made without validation lost the account
 of the source's holes

---
 src/managed.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index e84b218..d02fa37 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -476,7 +476,14 @@ tuple_ro_managed tuple_ro_managed::clone(const tuple_ro_weak &src,
         src.data(), src.size(),
         /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
 
-  const details::audit_holes_info &holes_info = {0, 0};
+  details::audit_holes_info holes_info = {0, 0};
+  const details::tuple_ro *const ro = src.get_impl();
+  for (auto loose = ro->begin_index(); loose < ro->end_index(); ++loose) {
+    if (loose->is_hole()) {
+      holes_info.count += 1;
+      holes_info.volume += uint16_t(loose->hole_get_units());
+    }
+  }
   return tuple_ro_managed(tuple_rw_fixed(
       holes_info, src,
       /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
-- 
2.43.0


From 6ab7ed6e5912cf8f053fc42955cb739582ef7f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:09 +0000
Subject: [PATCH 18/46] fix: taking a tuple with dont_optimize optimized it,
 and the other way around

---
 fast_positive/tuples.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 6f85a16..a10c82c 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -850,8 +850,8 @@ public:
 
   /* возвращает пару, во втором элементе признак инвалидации итераторов */
   std::pair<tuple_ro_weak, bool> take_weak(bool dont_optimize = false) {
-    return dont_optimize ? take_weak_optimized()
-                         : std::make_pair(take_weak_asis(), false);
+    return dont_optimize ? std::make_pair(take_weak_asis(), false)
+                         : take_weak_optimized();
   }
 
   tuple_ro_managed move_to_ro(bool dont_optimize = false) {
@@ -887,10 +887,9 @@ public:
       bool dont_optimize = false, bool hollow_if_empty = false,
       const hippeus::buffer_tag &allot_tag = default_buffer_allot()) {
     return dont_optimize
-               ? take_managed_clone_optimized(hollow_if_empty, allot_tag)
-               : std::make_pair(
-                     take_managed_clone_asis(hollow_if_empty, allot_tag),
-                     false);
+               ? std::make_pair(
+                     take_managed_clone_asis(hollow_if_empty, allot_tag), false)
+               : take_managed_clone_optimized(hollow_if_empty, allot_tag);
   }
 
   __pure_function static cxx11_constexpr size_t estimate_required_space(
-- 
2.43.0


From 13b3b61234b25b0f37272f0d98b3f9d5d2733e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:09 +0000
Subject: [PATCH 19/46] fix: capacity of a reallocated tuple without a managed
 buffer

---
 src/autogrowth.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index ecdcea5..06abfac 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -144,7 +144,7 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
     pimpl_->end_ = unsigned(std::min(
         ptrdiff_t(max_tuple_units_netto),
         erthink::constexpr_pointer_cast<details::unit_t *>(new_legacy_buffer) +
-            growth_space % fundamentals::unit_size - pimpl_->area_));
+            growth_space / fundamentals::unit_size - pimpl_->area_));
     debug_check();
 
     /* Память перевыделенна. Теперь должно быть достаточно места для данных, но
-- 
2.43.0


From 304dfde2477c0931cd5f1dc8c1577f018c4082aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:09 +0000
Subject: [PATCH 20/46] fix: tuple_rw_managed declared
 set_number()/insert_number() but did not define them

---
 src/autogrowth.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 06abfac..966d012 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -265,6 +265,12 @@ HERE_THUNK_MAKE(uint64_t, integer)
 HERE_THUNK_MAKE(int64_t, unsigned)
 HERE_THUNK_MAKE(uint64_t, unsigned)
 HERE_THUNK_MAKE(double, float)
+HERE_THUNK_MAKE(int32_t, number)
+HERE_THUNK_MAKE(uint32_t, number)
+HERE_THUNK_MAKE(int64_t, number)
+HERE_THUNK_MAKE(uint64_t, number)
+HERE_THUNK_MAKE(float, number)
+HERE_THUNK_MAKE(double, number)
 #undef HERE_THUNK_MAKE
 
 bool tuple_rw_managed::erase(const dynamic_collection_iterator_rw &it) {
-- 
2.43.0


From 76476826d1fab452e252fbee2051110bcbc45f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:53 +0000
Subject: [PATCH 21/46] fix: validation read lengths outside of the tuple and
 accepted senseless ones

---
 src/audit.cxx | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index f09b189..f6a6399 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -97,6 +97,10 @@ public:
                           const unit_t *begin_payload,
                           const unit_t *end_payload);
 
+  const char *check_stretchy(const genus type, const relative_payload *payload,
+                             const unit_t *begin_payload,
+                             const unit_t *end_payload);
+
   const char *check_loose(const field_loose *loose, const unit_t *begin_payload,
                           const unit_t *end_payload);
 };
@@ -188,6 +192,25 @@ const char *auditor::check_chunk(const unit_t *chunk_begin,
   return nullptr;
 }
 
+const char *auditor::check_stretchy(const genus type,
+                                    const relative_payload *payload,
+                                    const unit_t *begin_payload,
+                                    const unit_t *end_payload) {
+  /* the length must be inside the tuple before it could be read */
+  if (unlikely(payload->flat < begin_payload))
+    return AUDIT_FAILURE("chunk_begin < begin_payload");
+  if (unlikely(payload->flat >= end_payload))
+    return AUDIT_FAILURE("chunk_begin >= end_payload");
+
+  const std::size_t units = payload->stretchy.brutto_units(type);
+  if (unlikely(units < 1))
+    return AUDIT_FAILURE("stretchy field without length");
+  if (unlikely(type == genus::varbin && units < 2 &&
+               (payload->stretchy.varbin.reserved14_tailbytes & 3) != 0))
+    return AUDIT_FAILURE("varbin's tail without data");
+  return check_chunk(payload->flat, units, begin_payload, end_payload);
+}
+
 const char *auditor::check_loose(const field_loose *loose,
                                  const unit_t *begin_payload,
                                  const unit_t *end_payload) {
@@ -218,9 +241,8 @@ const char *auditor::check_loose(const field_loose *loose,
 
   /* stretchy */
   if (loose->relative.have_payload())
-    return check_chunk(loose->relative.payload()->flat,
-                       loose->relative.payload()->stretchy.brutto_units(type),
-                       begin_payload, end_payload);
+    return check_stretchy(type, loose->relative.payload(), begin_payload,
+                          end_payload);
   return nullptr;
 }
 } // namespace
@@ -286,10 +308,9 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
 
       if (!target->relative.have_payload())
         continue;
-      const auto payload = target->relative.payload();
-      trouble = validator.check_chunk(
-          payload->flat, payload->stretchy.brutto_units(field_token.type()),
-          payload_begin, payload_end);
+      trouble = validator.check_stretchy(field_token.type(),
+                                         target->relative.payload(),
+                                         payload_begin, payload_end);
       if (unlikely(trouble))
         return AUDIT_FAILURE(trouble);
     }
-- 
2.43.0


From 48f84bdfc40affa1a1ae33892e3d195826c524c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:53 +0000
Subject: [PATCH 22/46] fix: validation of a tuple with a full index and
 variable-length preplaced fields

---
 src/audit.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index f6a6399..4bc8ef3 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -88,7 +88,7 @@ public:
   auditor(onstack_allocation_arena &area, std::size_t limit)
       : map_(area), holes_count_(0), holes_volume_(0) {
     static_assert(sizeof(interval) == 2 * sizeof(offset), "WTF?");
-    FPTU_ENSURE(limit <= fptu::max_fields);
+    FPTU_ENSURE(limit <= fptu::max_tuple_units_netto);
     map_.reserve(limit);
   }
 
-- 
2.43.0


From 652329c0637c6ff0cd4d183e152154fb61e0cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:58 +0000
Subject: [PATCH 23/46] fix: postfix increment and decrement of iterators

---
 fast_positive/tuples/details/getter.h |  4 ++--
 fast_positive/tuples/details/ro.h     | 20 ++++++++++++--------
 fast_positive/tuples/details/rw.h     |  4 ++--
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 83d8bdc..f3ecc6a 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -492,9 +492,9 @@ public:
                             detent_, accessor::token_.tag());
     return *this;
   }
-  collection_iterator_ro operator++(int) const cxx11_noexcept {
+  collection_iterator_ro operator++(int) cxx11_noexcept {
     collection_iterator_ro iterator(*this);
-    ++iterator;
+    operator++();
     return iterator;
   }
   cxx11_constexpr const accessor &operator*() const cxx11_noexcept {
diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index 9d5143e..2f3ed50 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -182,17 +182,19 @@ public:
     --field_;
     return *this;
   }
-  loose_iterator_ro operator++(int) const cxx11_noexcept {
+  loose_iterator_ro operator++(int) cxx11_noexcept {
     loose_iterator_ro iterator(*this);
-    return --iterator;
+    operator++();
+    return iterator;
   }
   loose_iterator_ro &operator--() cxx11_noexcept {
     ++field_;
     return *this;
   }
-  loose_iterator_ro operator--(int) const cxx11_noexcept {
+  loose_iterator_ro operator--(int) cxx11_noexcept {
     loose_iterator_ro iterator(*this);
-    return ++iterator;
+    operator--();
+    return iterator;
   }
   loose_iterator_ro &operator+=(const difference_type shift) cxx11_noexcept {
     field_ -= shift;
@@ -504,14 +506,16 @@ public:
   }
 
   field_iterator_ro &operator++();
-  field_iterator_ro operator++(int) const {
+  field_iterator_ro operator++(int) {
     field_iterator_ro iterator(*this);
-    return ++iterator;
+    operator++();
+    return iterator;
   }
   field_iterator_ro &operator--();
-  field_iterator_ro operator--(int) const {
+  field_iterator_ro operator--(int) {
     field_iterator_ro iterator(*this);
-    return --iterator;
+    operator--();
+    return iterator;
   }
 };
 
diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index a52fe22..ebd117c 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -928,9 +928,9 @@ public:
                accessor::tuple_->end_index(), accessor::token_.tag());
       return *this;
     }
-    collection_iterator_rw operator++(int) const cxx11_noexcept {
+    collection_iterator_rw operator++(int) cxx11_noexcept {
       collection_iterator_rw iterator(*this);
-      ++iterator;
+      operator++();
       return iterator;
     }
     cxx14_constexpr accessor operator*() const cxx11_noexcept {
-- 
2.43.0


From 9c7d050d64ee048065e880900dda432ba9a18043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:11 +0000
Subject: [PATCH 24/46] fix: a read-write collection could not be read as a
 constant one (nor tested for emptiness)

---
 fast_positive/tuples/details/rw.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index ebd117c..51e3128 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -956,9 +956,9 @@ public:
     }
 
     operator collection_iterator_ro<TOKEN>() const cxx11_noexcept {
-      return collection_iterator_ro<TOKEN>(accessor::field_.const_loose,
-                                           accessor::tuple_->end_index(),
-                                           accessor::token_);
+      return collection_iterator_ro<TOKEN>(
+          static_cast<const field_loose *>(accessor::field_),
+          accessor::tuple_->end_index(), accessor::token_);
     }
     cxx11_constexpr bool operator==(
         const collection_iterator_ro<TOKEN> &other) const cxx11_noexcept {
@@ -992,12 +992,12 @@ public:
     }
 
     cxx11_constexpr operator const_range() const cxx11_noexcept {
-      return const_range(iterator::field_.const_loose,
+      return const_range(static_cast<const field_loose *>(iterator::field_),
                          iterator::tuple_->end_index(), iterator::token_);
     }
 
     cxx14_constexpr const const_iterator begin() const cxx11_noexcept {
-      return const_iterator(iterator::field_.const_loose,
+      return const_iterator(static_cast<const field_loose *>(iterator::field_),
                             iterator::tuple_->end_index(), iterator::token_);
     }
     cxx14_constexpr const_iterator end() const cxx11_noexcept {
-- 
2.43.0


From 5ae2e426cf2b908dd9510af77115a04ecc04ac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:38 +0000
Subject: [PATCH 25/46] fix: loose_iterator_ro::operator[] took the type of
 another field

---
 fast_positive/tuples/details/ro.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index 2f3ed50..6e681b2 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -79,15 +79,16 @@ public:
 
   cxx14_constexpr dynamic_accessor_ro
   operator[](const difference_type index) const cxx11_noexcept {
+    const loose_iterator_ro there(field_ - index);
     return dynamic_accessor_ro(
-        field_ - index,
+        there.field_,
         /* При чтении можно обойтись без всех token-флажков:
            - is_collection: не имеет значения при чтении одного текущего
              экземпляра поля.
            - is_discernible_null: не имеет значения, ибо точно знаем что
              loose-поле есть.
            - is_rangechecking/is_saturated: не нужен при чтении. */
-        field_token(false, false, false));
+        there.field_token(false, false, false));
   }
   cxx14_constexpr dynamic_accessor_ro operator*() const cxx11_noexcept {
     return operator[](0);
-- 
2.43.0


From 6b6a2cbffa209f4e70eef3b90953e680728eecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:39 +0000
Subject: [PATCH 26/46] fix: the AVX scan read beyond the index and compared
 tags as floats

The unaligned load at +2 touched two bytes after the end of the index (and so
after the tuple, perhaps on an unmapped page), and with denormals-are-zero mode
every field was taken as a match.
---
 src/scan_AVX.cxx | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/scan_AVX.cxx b/src/scan_AVX.cxx
index 55c768b..0386bb0 100644
--- a/src/scan_AVX.cxx
+++ b/src/scan_AVX.cxx
@@ -33,22 +33,24 @@ namespace fptu {
 namespace details {
 
 #if __SANITIZE_ADDRESS__
-static __m256i __attribute__((no_sanitize_address, noinline))
-bypass_asan_read_m256(const void *src) {
-  return _mm256_loadu_si256((const __m256i *)src);
+static __m128i __attribute__((no_sanitize_address, noinline))
+bypass_asan_read_m128(const void *src) {
+  return _mm_loadu_si128((const __m128i *)src);
 }
-#define _mm256_loadu_si256(ptr) bypass_asan_read_m256(ptr)
+#define _mm_loadu_si128(ptr) bypass_asan_read_m128(ptr)
 #endif
 
-static __always_inline unsigned cmp2mask(const __m256 pattern,
+/* LY: There are no 256-bit integer comparison without AVX2, and a comparison as
+ * floats depends on the DAZ-mode since the tags are look like denormals. */
+static __always_inline unsigned cmp2mask_x4(const __m128i pattern,
+                                            const field_loose *scan) {
+  return _mm_movemask_ps(_mm_castsi128_ps(
+      _mm_cmpeq_epi16(pattern, _mm_loadu_si128((const __m128i *)scan))));
+}
+
+static __always_inline unsigned cmp2mask(const __m128i pattern,
                                          const field_loose *scan) {
-  const char *ptr = (const char *)scan + 2;
-  const __m256 even = _mm256_castsi256_ps(_mm256_set1_epi32(0x0000ffffu));
-  return _mm256_movemask_ps(_mm256_cmp_ps(
-      pattern,
-      _mm256_and_ps(
-          even, _mm256_castsi256_ps(_mm256_loadu_si256((const __m256i *)ptr))),
-      _CMP_EQ_OQ));
+  return cmp2mask_x4(pattern, scan) | cmp2mask_x4(pattern, scan + 4) << 4;
 }
 
 static __always_inline bool mask2ptr(unsigned mask, const field_loose *&ptr) {
@@ -80,14 +82,7 @@ __hot const field_loose *fptu_scan_AVX(const field_loose *begin,
   const ptrdiff_t bytes = (char *)end - (char *)begin;
   assert(bytes % 4 == 0);
 
-  const __m256 pattern =
-#if 1 /* LY: avoid store to temporary on the stack */
-      _mm256_permute2f128_ps(_mm256_castps128_ps256(_mm_castsi128_ps(
-                                 _mm_set1_epi32(genus_and_id))),
-                             _mm256_undefined_ps(), 0);
-#else
-      _mm256_castsi256_ps(_mm256_set1_epi32(genus_and_id));
-#endif
+  const __m128i pattern = _mm_set1_epi16(genus_and_id);
   const field_loose *scan = begin;
 
   if (unlikely(bytes < 8 * 4)) {
-- 
2.43.0


From a5fefabdfae1ce810759ac23a1e4286334e2d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:00 +0000
Subject: [PATCH 27/46] fix: fptu_upsert_nested() always failed with a type
 mismatch

---
 src/compat_rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 790afc6..b2d84b1 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -335,7 +335,7 @@ fptu_error fptu_upsert_opaque_iov(fptu_rw *pt, unsigned column,
 fptu_error fptu_upsert_nested(fptu_rw *pt, unsigned column,
                               fptu_ro ro) cxx11_noexcept {
   try {
-    const fptu::token id(fptu::genus::varbin, column, false, true, false);
+    const fptu::token id(fptu::genus::nested, column, false, true, false);
     pt->set_nested(id, fptu::details::tuple_ro::make_from_buffer(
                            ro.sys.iov_base, ro.sys.iov_len, nullptr, false));
     return FPTU_OK;
-- 
2.43.0


From 1ce03867f4ced892b869298e25de2dfdeb0724b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:00 +0000
Subject: [PATCH 28/46] fix: fptu_insert_96/128/160/256() silently dropped an
 all-zero value

---
 src/compat_rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index b2d84b1..759f17d 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -373,7 +373,7 @@ FPTU_INSERT_IMPL(datetime, datetime, t64, fptu_datetime_t)
   fptu_error fptu_insert_##BITS(fptu_rw *pt, unsigned column,                  \
                                 const void *data) cxx11_noexcept {             \
     try {                                                                      \
-      const fptu::token id(fptu::genus::bin##BITS, column, true);              \
+      const fptu::token id(fptu::genus::bin##BITS, column, true, true, false); \
       pt->insert_bin##BITS(                                                    \
           id,                                                                  \
           *erthink::constexpr_pointer_cast<const fptu::binary##BITS##_t *>(    \
-- 
2.43.0


From 5cc134014516f13cae26f482811d2ea3e317afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:00 +0000
Subject: [PATCH 29/46] fix: fptu_get_xyz() reported success for an absent
 field

---
 src/compat_ro.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compat_ro.cxx b/src/compat_ro.cxx
index 304f300..0398b70 100644
--- a/src/compat_ro.cxx
+++ b/src/compat_ro.cxx
@@ -77,7 +77,7 @@ fptu_lookup_ro(fptu_ro ro, unsigned column,
       cxx11_noexcept {                                                         \
     error_guard raii(error);                                                   \
     try {                                                                      \
-      const fptu::token id(fptu::genus::GENUS, column, false);                 \
+      const fptu::token id(fptu::genus::GENUS, column, false, true, false);    \
       return THUNK_TYPE(impl(ro)->get_##NAME(id));                             \
     } catch (const std::exception &e) {                                        \
       raii.feed(e);                                                            \
@@ -107,7 +107,8 @@ FPTU_GET_IMPL(nested, nested, nested, fptu_ro, fptu::details::iovec_thunk,
       cxx11_noexcept {                                                         \
     error_guard raii(error);                                                   \
     try {                                                                      \
-      const fptu::token id(fptu::genus::bin##BITS, column, false);             \
+      const fptu::token id(fptu::genus::bin##BITS, column, false, true,        \
+                           false);                                             \
       return erthink::constexpr_pointer_cast<const uint8_t *>(                 \
           &impl(ro)->get_bin##BITS(id));                                       \
     } catch (const std::exception &e) {                                        \
-- 
2.43.0


From feec12f242b8b459d674b3a9b5b08dfad9dcc94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:00 +0000
Subject: [PATCH 30/46] fix: fptu_get_cstr() left the error code undefined on
 success

---
 src/compat_ro.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compat_ro.cxx b/src/compat_ro.cxx
index 0398b70..f63d36a 100644
--- a/src/compat_ro.cxx
+++ b/src/compat_ro.cxx
@@ -126,8 +126,11 @@ FPTU_GET_IMPL(256)
 const char *fptu_get_cstr(fptu_ro ro, unsigned column,
                           int *error) cxx11_noexcept {
   const fptu_field *pf = fptu::lookup(ro, column, fptu_cstr);
-  if (pf)
+  if (pf) {
+    if (error)
+      *error = FPTU_OK;
     return fptu_field_cstr(pf);
+  }
   fptu_set_error(FPTU_ENOFIELD, "fptu: no such field");
   if (error)
     *error = FPTU_ENOFIELD;
-- 
2.43.0


From 52337759b3cfcaa526207a6c058b1066e944361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:00 +0000
Subject: [PATCH 31/46] fix: fptu_field_as_iovec() returned wrong lengths and
 the header of text and opaque values

---
 src/compat_field.cxx | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 84b498c..5123c39 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -38,18 +38,24 @@ void fptu_erase_field(fptu_rw *pt, fptu_field *pf) cxx11_noexcept {
 //------------------------------------------------------------------------------
 
 struct iovec fptu_field_as_iovec(const fptu_field *pf) cxx11_noexcept {
-  if (likely(pf)) {
+  if (likely(pf && !pf->is_hole())) {
     const auto type = pf->type();
     if (fptu::details::is_inplaced(type))
-      return fptu::iovec(&pf->inplaced, fptu::details::loose_units(type));
+      return fptu::iovec(&pf->inplaced, fptu::details::preplaced_bytes(type));
 
     if (fptu::details::is_fixed_size(type))
       return fptu::iovec(pf->relative.payload(),
-                         fptu::details::loose_units(type));
+                         fptu::details::preplaced_bytes(type));
 
-    if (pf->relative.have_payload())
-      return fptu::iovec(pf->relative.payload(),
-                         pf->relative.payload()->stretchy.length(type));
+    if (pf->relative.have_payload()) {
+      const auto payload = pf->relative.payload();
+      const void *begin = payload;
+      if (type == fptu::genus::text)
+        begin = payload->stretchy.string.begin();
+      else if (type == fptu::genus::varbin)
+        begin = payload->stretchy.varbin.begin();
+      return fptu::iovec(begin, payload->stretchy.length(type));
+    }
   }
   return fptu::iovec(nullptr, 0);
 }
-- 
2.43.0


From d6b9ac0ffe66b7905446c6411489a1a8adf023b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:00 +0000
Subject: [PATCH 32/46] fix: fptu_field_cstr() dereferenced the payload of a
 field before checking its type

---
 src/compat_field.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 5123c39..e680b0b 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -129,12 +129,14 @@ const char *fptu_field_cstr(const fptu_field *pf) cxx11_noexcept {
   error_guard raii(nullptr);
   if (likely(pf)) {
     try {
+      const auto value = fptu::details::get<fptu::genus::text>(pf, true);
+      if (value.empty())
+        return FPTU_DENIL_CSTR;
       const auto payload = pf->relative.payload();
       const char *const field_end =
           erthink::constexpr_pointer_cast<const char *>(
               payload->flat + payload->stretchy.string.brutto_units());
-      return string_view_to_CAPI(
-          fptu::details::get<fptu::genus::text>(pf, true), field_end);
+      return string_view_to_CAPI(value, field_end);
     } catch (const std::exception &e) {
       raii.feed(e);
     }
-- 
2.43.0


From 0eb0319b8bfc73a3c96b311847a6713cdf0fd2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:00 +0000
Subject: [PATCH 33/46] fix: fptu_field_cstr() terminated when a copy of the
 text could not be allocated

---
 src/compat_field.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index e680b0b..40dd9d5 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -108,7 +108,7 @@ FPTU_GET_IMPL(256)
 
 /* LY: crutch for returning legacy c-string */
 static const char *string_view_to_CAPI(const fptu::string_view &value,
-                                       const char *detend) cxx11_noexcept {
+                                       const char *detend) {
   static thread_local std::string holder;
   if (value.empty())
     return FPTU_DENIL_CSTR;
-- 
2.43.0


From 16c990ca326148ce06d6532f2055fc693db60899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:00 +0000
Subject: [PATCH 34/46] fix: fptu_field_column() of an erased field was not
 negative

---
 src/compat_field.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 40dd9d5..43a8e6e 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -27,7 +27,7 @@ fptu_type fptu_field_type(const fptu_field *pf) cxx11_noexcept {
   return pf ? pf->legacy_type() : fptu_null;
 }
 int fptu_field_column(const fptu_field *pf) cxx11_noexcept {
-  return pf ? pf->colnum() : -1;
+  return fptu_field_is_dead(pf) ? -1 : int(pf->colnum());
 }
 
 void fptu_erase_field(fptu_rw *pt, fptu_field *pf) cxx11_noexcept {
-- 
2.43.0


From 06f7c38506df0a6b173286ffc26e0e1b921df2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:00 +0000
Subject: [PATCH 35/46] fix: looking up an out-of-range column found a field of
 another type

---
 src/compat_common.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compat_common.cxx b/src/compat_common.cxx
index cc26ddb..0619f20 100644
--- a/src/compat_common.cxx
+++ b/src/compat_common.cxx
@@ -76,6 +76,9 @@ static cxx11_constexpr bool match(const fptu_field *pf, unsigned column,
 __hot const fptu_field *
 fptu_first(const fptu_field *begin, const fptu_field *end, unsigned column,
            fptu_type_or_filter type_or_filter) cxx11_noexcept {
+  if (unlikely(column > fptu_max_cols))
+    return end;
+
   if (!is_filter(type_or_filter)) {
     const fptu_field *pf =
         static_cast<const fptu_field *>(fptu::details::lookup(
-- 
2.43.0


From 2758d83508ad203763f6ed4bd4d651425137c010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:00 +0000
Subject: [PATCH 36/46] fix: fptu_get_buffer_size() terminated on invalid
 arguments

---
 src/compat_rw.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 759f17d..cff6139 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -161,8 +161,13 @@ size_t fptu_get_buffer_size(fptu_ro ro, unsigned more_items,
                             unsigned more_payload) cxx11_noexcept {
   const fptu::details::tuple_ro *tuple_ro =
       static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base);
-  return fptu::details::tuple_rw::estimate_required_space(
-      tuple_ro, more_items, more_payload, nullptr);
+  try {
+    return fptu::details::tuple_rw::estimate_required_space(
+        tuple_ro, more_items, more_payload, nullptr);
+  } catch (const std::exception &e) {
+    fptu_set_error(e);
+    return 0;
+  }
 }
 
 static const char cbfs_ok_sign[] = "FPTU_SUCCESS";
-- 
2.43.0


From ff627ba16428cac73fa80b9f1f88f5556f39a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:15 +0000
Subject: [PATCH 37/46] fix: fptu_init() and fptu_fetch() wrote past a buffer
 smaller than the header

---
 src/rw.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rw.cxx b/src/rw.cxx
index 0937fcd..376c004 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -689,6 +689,8 @@ tuple_rw *tuple_rw::create_new(std::size_t items_limit, std::size_t data_bytes,
 
 tuple_rw *tuple_rw::create_legacy(void *buffer_space, std::size_t buffer_size,
                                   std::size_t items_limit) {
+  if (unlikely(buffer_size < pure_tuple_size()))
+    throw_invalid_argument();
   return new (buffer_space) tuple_rw(0, buffer_size, items_limit, nullptr);
 }
 
@@ -779,6 +781,8 @@ tuple_rw *tuple_rw::fetch_legacy(const audit_holes_info &holes_info,
                                  std::size_t buffer_size,
                                  std::size_t more_items) {
   assert(ro->audit(nullptr, holes_info.count == 0) == nullptr);
+  if (unlikely(buffer_size < pure_tuple_size()))
+    throw_insufficient_space(ro->index_size() + more_items, ro->size());
   return new (buffer_space)
       tuple_rw(holes_info, ro, 0, buffer_size, more_items, nullptr);
 }
-- 
2.43.0


From 9fdcf35c4ba0a5956a6c8308c99d9ebc22852d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:15 +0000
Subject: [PATCH 38/46] fix: fptu_fetch() of a tuple with holes lost account of
 them

---
 src/compat_rw.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index cff6139..f14eaba 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -148,8 +148,15 @@ fptu_rw *fptu_fetch(fptu_ro ro, void *buffer_space, std::size_t buffer_bytes,
     const fptu::details::tuple_ro *tuple_ro =
         static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base);
 
+    fptu::details::audit_holes_info holes_info = {0, 0};
+    for (auto pf = fptu_begin_ro(ro); pf < fptu_end_ro(ro); ++pf)
+      if (pf->is_hole()) {
+        holes_info.count += 1;
+        holes_info.volume += uint16_t(pf->hole_get_units());
+      }
+
     const auto tuple_rw = fptu::details::tuple_rw::fetch_legacy(
-        {0, 0}, tuple_ro, buffer_space, buffer_bytes, more_items);
+        holes_info, tuple_ro, buffer_space, buffer_bytes, more_items);
     return static_cast<fptu_rw *>(tuple_rw);
   } catch (const std::exception &e) {
     fptu_set_error(e);
-- 
2.43.0


From 54577de3069d86e02866bbc16dc0609e072b0a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:45 +0000
Subject: [PATCH 39/46] fix: growing a tuple with a schema no longer asks for
 more than the limit

---
 src/autogrowth.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 966d012..bc67d50 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -113,8 +113,10 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
    * Однако, под данные отойдет всё место после резервирования под индекс.
    * Поэтому, с учетом перехода на следующий уровень масштаба, место под данные
    * скорее всего будет выделено примерно в четверо больше. */
+  const size_t preplaced_bytes =
+      pimpl_->schema_ ? pimpl_->schema_->preplaced_bytes() : 0;
   const size_t growth_data = std::min(
-      size_t(fundamentals::max_tuple_bytes_netto),
+      size_t(fundamentals::max_tuple_bytes_netto) - preplaced_bytes,
       (wanna.data_space > pimpl_->tail_space_units())
           ? details::units2bytes((wanna.data_space + data_capacity_units) * 2)
           : details::units2bytes(data_capacity_units + 42));
-- 
2.43.0


From 86d4a1dd37a03a39525405f377db36ce3fe5c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:45 +0000
Subject: [PATCH 40/46] fix: do not account preplaced fields twice when
 reopening a large tuple

---
 fast_positive/tuples/details/rw.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 51e3128..386cc46 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1158,8 +1158,9 @@ public: //----------------------------------------------------------------------
     const std::size_t preplaced_bytes = schema ? schema->preplaced_bytes() : 0;
     if (unlikely(preplaced_bytes > fundamentals::max_tuple_bytes_netto))
       throw_invalid_schema();
-    if (unlikely(data_bytes >
-                     fundamentals::max_tuple_bytes_netto - preplaced_bytes ||
+    if (unlikely(data_bytes > fundamentals::max_tuple_bytes_netto -
+                                  (dont_account_preplaced ? 0
+                                                          : preplaced_bytes) ||
                  items > fundamentals::max_fields))
       throw_tuple_too_large();
 
-- 
2.43.0


From 83945346ab7295193d7e69226684daaa532d25fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:38 +0000
Subject: [PATCH 41/46] fix: a tuple of the largest scale can be created with a
 schema

---
 src/managed.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index d02fa37..9c9c072 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -53,6 +53,13 @@ static const unsigned scale2more[unsigned(initiation_scale::extreme) + 1] = {
     unsigned(max_tuple_bytes_netto - details::units2bytes(max_fields)),
 };
 
+static std::size_t scale2data(const initiation_scale scale,
+                              const fptu::schema *schema) {
+  return std::min(size_t(scale2bytes[scale]),
+                  max_tuple_bytes_netto -
+                      (schema ? schema->preplaced_bytes() : 0));
+}
+
 std::size_t estimate_space_for_tuple(const initiation_scale &scale,
                                      const fptu::schema *schema) {
   const size_t preplaced_bytes = schema ? schema->preplaced_bytes() : 0;
@@ -72,7 +79,7 @@ tuple_rw_fixed::tuple_rw_fixed(const initiation_scale scale)
 tuple_rw_fixed::tuple_rw_fixed(const initiation_scale scale,
                                const fptu::schema *schema,
                                const hippeus::buffer_tag &allot_tag)
-    : tuple_rw_fixed(scale2items[scale], scale2bytes[scale], schema,
+    : tuple_rw_fixed(scale2items[scale], scale2data(scale, schema), schema,
                      allot_tag) {}
 tuple_rw_fixed::tuple_rw_fixed(std::size_t items_limit, std::size_t data_bytes,
                                const fptu::schema *schema,
-- 
2.43.0


From cb44df0a82d3c64ace6b8bf28792207894d7c500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:38 +0000
Subject: [PATCH 42/46] fix: iterating over fields when the first fixed-offset
 one is not at offset zero

---
 src/ro.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ro.cxx b/src/ro.cxx
index a287b0b..62a22c9 100644
--- a/src/ro.cxx
+++ b/src/ro.cxx
@@ -155,11 +155,14 @@ field_iterator_ro::begin(const void *pivot,
                          const fptu::schema *schema) cxx11_noexcept {
   const auto last_loose = static_cast<const details::field_loose *>(pivot) - 1;
   if (schema && schema->number_of_preplaced()) {
+    auto ident = schema->tokens().begin();
+    assert(ident->is_valid() && ident->is_preplaced());
+    /* первое preplaced-поле не обязано иметь нулевое смещение */
     field_iterator_ro iter(static_cast<const details::field_preplaced *>(pivot),
                            pivot, schema);
+    iter.field_ =
+        static_cast<const char *>(pivot) + ident->preplaced_offset();
     /* пропускаем null-евые preplaced-поля */
-    auto ident = schema->tokens().begin();
-    assert(ident->is_valid() && ident->preplaced_offset() == 0);
     const auto detent = ident + schema->number_of_preplaced();
     while (unlikely(iter.preplaced()->is_null(ident->tag()))) {
       if (++ident == detent) {
-- 
2.43.0


From dc57b001a94cc0f5d9d090ef068d257d907d27da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:00 +0000
Subject: [PATCH 43/46] fix: tagged pointers keep the tag where they read it
 from

---
 fast_positive/tuples/details/tagged_pointer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fast_positive/tuples/details/tagged_pointer.h b/fast_positive/tuples/details/tagged_pointer.h
index e31809d..710d7f3 100644
--- a/fast_positive/tuples/details/tagged_pointer.h
+++ b/fast_positive/tuples/details/tagged_pointer.h
@@ -87,7 +87,7 @@ public:
 
   cxx11_constexpr narrow_tagged_pointer_base(void *ptr,
                                              unsigned tag = 0) cxx11_noexcept
-      : body_((p2u(ptr) ^ ptr_xor) | (uintptr_t(tag) << bits)) {
+      : body_((p2u(ptr) ^ ptr_xor) | uintptr_t(tag)) {
     constexpr_assert(((p2u(ptr) ^ ptr_xor) & tag_mask) == 0);
     constexpr_assert(tag < (1u << bits));
     constexpr_assert(this->ptr() == ptr && this->tag() == tag);
@@ -111,13 +111,13 @@ public:
   }
 
   cxx14_constexpr void set_tag(unsigned tag) cxx11_noexcept {
-    body_.uint = (body_.uint & ptr_mask) | (uintptr_t(tag) << bits);
+    body_.uint = (body_.uint & ptr_mask) | uintptr_t(tag);
     constexpr_assert(tag < (1u << bits));
     constexpr_assert(this->tag() == tag);
   }
 
   cxx14_constexpr void set(void *ptr, unsigned tag) cxx11_noexcept {
-    body_.uint = (p2u(ptr) ^ ptr_xor) | (uintptr_t(tag) << bits);
+    body_.uint = (p2u(ptr) ^ ptr_xor) | uintptr_t(tag);
     constexpr_assert(((p2u(ptr) ^ ptr_xor) & tag_mask) == 0);
     constexpr_assert(tag < (1u << bits));
     constexpr_assert(this->ptr() == ptr && this->tag() == tag);
@@ -197,7 +197,7 @@ public:
 
   cxx11_constexpr wide_tagged_pointer_base(void *ptr,
                                            unsigned tag = 0) cxx11_noexcept
-      : body_((p2u(ptr) ^ ptr_xor) | (uint64_t(tag) << bits)) {
+      : body_((p2u(ptr) ^ ptr_xor) | (uint64_t(tag) << (64 - bits))) {
     constexpr_assert(((p2u(ptr) ^ ptr_xor) & tag_mask) == 0);
     constexpr_assert(tag < (1u << bits));
     constexpr_assert(this->ptr() == ptr && this->tag() == tag);
@@ -221,13 +221,13 @@ public:
   }
 
   cxx14_constexpr void set_tag(unsigned tag) cxx11_noexcept {
-    body_.u64 = (body_.u64 & ptr_mask) | (uint64_t(tag) << bits);
+    body_.u64 = (body_.u64 & ptr_mask) | (uint64_t(tag) << (64 - bits));
     constexpr_assert(tag < (1u << bits));
     constexpr_assert(this->tag() == tag);
   }
 
   cxx14_constexpr void set(void *ptr, unsigned tag) cxx11_noexcept {
-    body_.u64 = (p2u(ptr) ^ ptr_xor) | (uint64_t(tag) << bits);
+    body_.u64 = (p2u(ptr) ^ ptr_xor) | (uint64_t(tag) << (64 - bits));
     constexpr_assert(((p2u(ptr) ^ ptr_xor) & tag_mask) == 0);
     constexpr_assert(tag < (1u << bits));
     constexpr_assert(this->ptr() == ptr && this->tag() == tag);
-- 
2.43.0


From 94d3a5ba7c3dc6a97c5adf33684333bab74d9177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:57 +0000
Subject: [PATCH 44/46] fix: allocation_arena: refuse sizes whose rounding up
 overflows

---
 fast_positive/erthink/erthink_short_alloc.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fast_positive/erthink/erthink_short_alloc.h b/fast_positive/erthink/erthink_short_alloc.h
index 764b73b..6385830 100644
--- a/fast_positive/erthink/erthink_short_alloc.h
+++ b/fast_positive/erthink/erthink_short_alloc.h
@@ -183,9 +183,9 @@ public:
     debug_check();
 
     if (likely(pointer_in_buffer(ptr_))) {
-      auto const aligned_n = align_up(n);
-      if (likely(static_cast<decltype(aligned_n)>(buf_ + size - ptr_) >=
-                 aligned_n)) {
+      auto const aligned_n = align_up(n) /* may wrap around to less than n */;
+      if (likely(aligned_n >= n &&
+                 static_cast<std::size_t>(buf_ + size - ptr_) >= aligned_n)) {
         char *r = ptr_;
 #ifndef NDEBUG
         std::memset(r, 0xCC, aligned_n);
-- 
2.43.0


From ab6d8e1ffe9240cdf463c759b69c912fdf3ac12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:23 +0000
Subject: [PATCH 45/46] fix: tuple audit: refuse lost space in a tuple without
 any payload

---
 src/audit.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/audit.cxx b/src/audit.cxx
index 4bc8ef3..0e60f0a 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -359,6 +359,9 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
           return AUDIT_FAILURE("tuple have unmerged adjacent holes");
       }
     }
+  } else if (unlikely(payload_begin + bytes2units(preplaced_bytes) !=
+                      payload_end)) {
+    return AUDIT_FAILURE("lose space at the end of tuple");
   }
 
   if ((flags & audit_flags::audit_tuple_sorted_loose) != 0 &&
-- 
2.43.0


From 9d8dad7a705c0f37634b4cd5d6084b089539092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:17 +0000
Subject: [PATCH 46/46] fix: tuple audit: accept a tuple of the largest size

---
 src/audit.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index 0e60f0a..5d6e7ba 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -382,7 +382,7 @@ tuple_ro::inline_lite_checkup(const void *ptr,
 
   if (unlikely(bytes < sizeof(unit_t)))
     return AUDIT_FAILURE("hollow tuple (too short)");
-  if (unlikely(bytes > fptu::max_tuple_bytes_netto))
+  if (unlikely(bytes > fptu::max_tuple_bytes_brutto))
     return AUDIT_FAILURE("tuple too large");
   if (unlikely(bytes % sizeof(unit_t)))
     return AUDIT_FAILURE("odd tuple size");
-- 
2.43.0

