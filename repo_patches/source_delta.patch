From 51d3932d67699e59d8ff104a3e59d7cec6e47d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:57 +0000
Subject: [PATCH 01/32] fix: StringDictionary::copyStrings fills its strings
 cache under the lock

---
 .../StringDictionary/StringDictionary.cpp     | 23 ++++++++++++-------
 omniscidb/StringDictionary/StringDictionary.h |  3 +++
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index ccc267b..caac0d9 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1056,16 +1056,17 @@ std::vector<int32_t> StringDictionary::getRegexpLike(const std::string& pattern,
 }
 
 std::vector<std::string> StringDictionary::copyStrings(int64_t generation) const {
-  generation = generation >= 0 ? std::min(generation, static_cast<int64_t>(entryCount()))
-                               : static_cast<int64_t>(entryCount());
+  mapd_lock_guard<mapd_shared_mutex> write_lock(rw_mutex_);
+  const int64_t entry_count = str_count_ + base_generation_;
+  generation = generation >= 0 ? std::min(generation, entry_count) : entry_count;
   if (!strings_cache_) {
     strings_cache_ = std::make_shared<std::vector<std::string>>();
-    strings_cache_->reserve(entryCount());
-    copyStrings(0, entryCount(), *strings_cache_);
+    strings_cache_->reserve(entry_count);
+    copyStringsUnlocked(0, entry_count, *strings_cache_);
   } else if (strings_cache_->size() < static_cast<size_t>(generation)) {
     auto start = strings_cache_->size();
-    strings_cache_->reserve(entryCount());
-    copyStrings(start, entryCount(), *strings_cache_);
+    strings_cache_->reserve(entry_count);
+    copyStringsUnlocked(start, entry_count, *strings_cache_);
   }
 
   return std::vector<std::string>(strings_cache_->begin(),
@@ -1075,8 +1076,15 @@ std::vector<std::string> StringDictionary::copyStrings(int64_t generation) const
 void StringDictionary::copyStrings(int64_t string_id_start,
                                    int64_t string_id_end,
                                    std::vector<std::string>& out_vec) const {
+  mapd_shared_lock<mapd_shared_mutex> read_lock(rw_mutex_);
+  copyStringsUnlocked(string_id_start, string_id_end, out_vec);
+}
+
+void StringDictionary::copyStringsUnlocked(int64_t string_id_start,
+                                           int64_t string_id_end,
+                                           std::vector<std::string>& out_vec) const {
   CHECK_GE(string_id_start, 0);
-  CHECK_LE(string_id_end, static_cast<int64_t>(entryCount()));
+  CHECK_LE(string_id_end, static_cast<int64_t>(str_count_ + base_generation_));
 
   if (base_dict_ && string_id_start < base_generation_) {
     base_dict_->copyStrings(
@@ -1089,7 +1097,6 @@ void StringDictionary::copyStrings(int64_t string_id_start,
     return;
   }
 
-  mapd_lock_guard<mapd_shared_mutex> write_lock(rw_mutex_);
   const bool multithreaded = (local_string_id_end - local_string_id_start) > 10000;
   auto copy = [this](std::vector<std::string>& str_list,
                      const int64_t start_id,
diff --git a/omniscidb/StringDictionary/StringDictionary.h b/omniscidb/StringDictionary/StringDictionary.h
index c5a0cef..57fbaea 100644
--- a/omniscidb/StringDictionary/StringDictionary.h
+++ b/omniscidb/StringDictionary/StringDictionary.h
@@ -208,6 +208,9 @@ class StringDictionary {
   void copyStrings(int64_t string_id_start,
                    int64_t string_id_end,
                    std::vector<std::string>& out_vec) const;
+  void copyStringsUnlocked(int64_t string_id_start,
+                           int64_t string_id_end,
+                           std::vector<std::string>& out_vec) const;
   template <class String>
   uint32_t computeBucket(
       const uint32_t hash,
-- 
2.43.0


From b158cd7978d740c22e80f7f0da34d7ee24518dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:57 +0000
Subject: [PATCH 02/32] fix: buildUnionTranslationMap reads source strings
 under the source lock

---
 omniscidb/StringDictionary/StringDictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index caac0d9..ab48089 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1509,7 +1509,7 @@ std::vector<int32_t> StringDictionary::buildUnionTranslationMap(
          source_string_id < static_cast<int32_t>(translated_ids.size());
          ++source_string_id) {
       if (translated_ids[source_string_id] == StringDictionary::INVALID_STR_ID) {
-        const auto source_string = getStringUnlocked(source_string_id);
+        const auto source_string = getString(source_string_id);
         const auto dest_string_id = dest->getOrAdd(source_string);
         translated_ids[source_string_id] = dest_string_id;
       }
-- 
2.43.0


From bb32a559048e06b600bf229f67e74015753bd546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:57 +0000
Subject: [PATCH 03/32] fix: getCompare throws on an unsupported operator
 instead of dropping the error

---
 omniscidb/StringDictionary/StringDictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index ab48089..6dfa212 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -985,7 +985,7 @@ std::vector<int32_t> StringDictionary::getCompare(const std::string& pattern,
       }
     }
   } else {
-    std::runtime_error("Unsupported string comparison operator");
+    throw std::runtime_error("Unsupported string comparison operator");
   }
   return ret;
 }
-- 
2.43.0


From 57e83b5ccf1c03765687ec9e4958b2517206c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:57 +0000
Subject: [PATCH 04/32] fix: do not re-acquire a dictionary lock already held
 by the same thread

---
 .../StringDictionary/StringDictionary.cpp     | 36 +++++++++++--------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 6dfa212..2c78999 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -352,7 +352,9 @@ size_t StringDictionary::getBulk(const std::vector<String>& string_vec,
   }
 
   mapd_shared_lock<mapd_shared_mutex> read_lock(rw_mutex_);
-  const int64_t num_dict_strings = generation >= 0 ? generation : entryCount();
+  const int64_t num_dict_strings =
+      generation >= 0 ? generation
+                      : static_cast<int64_t>(str_count_) + base_generation_;
   const bool skip_owned_string =
       (num_dict_strings <= base_generation_) || !base_num_strings_not_found;
   if (skip_owned_string) {
@@ -1562,6 +1564,20 @@ size_t StringDictionaryTranslator::buildDictionaryTranslationMap(
   if (source_dict == dest_dict) {
     throw std::runtime_error("Cannot translate between a string dictionary and itself.");
   }
+  // Translate strings of the base dictionary first: it takes its own locks, including
+  // the one of the destination dictionary.
+  size_t base_num_strings_not_translated = 0;
+  if (source_dict->base_dict_ && num_dest_strings) {
+    base_num_strings_not_translated = buildDictionaryTranslationMap(
+        source_dict->base_dict_.get(),
+        dest_dict,
+        translated_ids,
+        std::min(source_generation, source_dict->base_generation_),
+        dest_generation,
+        dest_has_transients,
+        dest_transient_lookup_callback);
+  }
+
   const bool this_dict_is_locked_first = source_dict < dest_dict;
   mapd_shared_lock<mapd_shared_mutex> first_read_lock(
       this_dict_is_locked_first ? source_dict->rw_mutex_ : dest_dict->rw_mutex_);
@@ -1573,8 +1589,10 @@ size_t StringDictionaryTranslator::buildDictionaryTranslationMap(
   // generation arguments, if valid (i.e. >= 0), otherwise just the
   // size of each dictionary
 
-  CHECK_LE(num_source_strings, static_cast<int64_t>(source_dict->entryCount()));
-  CHECK_LE(num_dest_strings, static_cast<int64_t>(dest_dict->entryCount()));
+  CHECK_LE(num_source_strings,
+           static_cast<int64_t>(source_dict->str_count_) + source_dict->base_generation_);
+  CHECK_LE(num_dest_strings,
+           static_cast<int64_t>(dest_dict->str_count_) + dest_dict->base_generation_);
 
   // Destination distionary is empty so simply fill the output vector with
   // invalid IDs.
@@ -1583,18 +1601,6 @@ size_t StringDictionaryTranslator::buildDictionaryTranslationMap(
     return num_source_strings;
   }
 
-  size_t base_num_strings_not_translated = 0;
-  if (source_dict->base_dict_) {
-    base_num_strings_not_translated = buildDictionaryTranslationMap(
-        source_dict->base_dict_.get(),
-        dest_dict,
-        translated_ids,
-        std::min(source_generation, source_dict->base_generation_),
-        dest_generation,
-        dest_has_transients,
-        dest_transient_lookup_callback);
-  }
-
   constexpr int64_t target_strings_per_task{1000};
 
   // The below logic, by executing low-level private variable accesses on both
-- 
2.43.0


From fe9108057e31c96b5208b0ac588c056233df5d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:57 +0000
Subject: [PATCH 05/32] fix: bulk string addition leaves the dictionary
 consistent when it fails

---
 .../StringDictionary/StringDictionary.cpp     | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 2c78999..21fb8f4 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -456,6 +456,9 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
     // need to add record to dictionary
     // check there is room
     if (str_count_ > static_cast<size_t>(max_valid_int_value<T>())) {
+      if (str_count_ > initial_str_count) {
+        invalidateInvertedIndex();
+      }
       throw_encoding_error<T>(input_string, dict_ref_);
     }
     CHECK_LT(str_count_, MAX_STRCOUNT)
@@ -499,6 +502,16 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
   size_t sum_new_string_lengths = 0;
   string_memory_ids.reserve(input_strings.size());
   size_t input_string_idx{0};
+  // Store all strings collected so far, so that every ID in the hash table is backed by
+  // storage when we leave (normally or with an error).
+  auto commit_new_strings = [&]() {
+    appendToStorageBulk(input_strings, string_memory_ids, sum_new_string_lengths);
+    const size_t num_strings_added = shadow_str_count - str_count_;
+    str_count_ = shadow_str_count;
+    if (num_strings_added > 0) {
+      invalidateInvertedIndex();
+    }
+  };
   for (const auto& input_string : input_strings) {
     // Skip strings found in the base dictionary.
     if (base_dict_ && output_string_ids[input_string_idx] != INVALID_STR_ID) {
@@ -543,6 +556,7 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
     // Did not find string, so need to add record to dictionary
     // First check there is room
     if (shadow_str_count > static_cast<size_t>(max_valid_int_value<T>())) {
+      commit_new_strings();
       throw_encoding_error<T>(input_string, dict_ref_);
     }
     CHECK_LT(shadow_str_count, MAX_STRCOUNT)
@@ -556,12 +570,7 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
     }
     output_string_ids[input_string_idx++] = indexToId(shadow_str_count++);
   }
-  appendToStorageBulk(input_strings, string_memory_ids, sum_new_string_lengths);
-  const size_t num_strings_added = shadow_str_count - str_count_;
-  str_count_ = shadow_str_count;
-  if (num_strings_added > 0) {
-    invalidateInvertedIndex();
-  }
+  commit_new_strings();
 }
 template void StringDictionary::getOrAddBulk(const std::vector<std::string>& string_vec,
                                              uint8_t* encoded_vec);
-- 
2.43.0


From bb657b1e8a018f0eee75ecabc61c6289e390338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:57 +0000
Subject: [PATCH 06/32] fix: StringDictionary equality compares all owned
 strings and tolerates itself

---
 omniscidb/StringDictionary/StringDictionary.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 21fb8f4..140b836 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -132,6 +132,10 @@ bool StringDictionary::operator==(StringDictionary const& rhs) const {
     return false;
   }
 
+  if (this == &rhs) {
+    return true;
+  }
+
   const bool this_dict_is_locked_first = this < &rhs;
   mapd_shared_lock<mapd_shared_mutex> first_read_lock(
       this_dict_is_locked_first ? rw_mutex_ : rhs.rw_mutex_);
@@ -142,8 +146,8 @@ bool StringDictionary::operator==(StringDictionary const& rhs) const {
     return false;
   }
 
-  for (auto str_id = base_generation_; str_id < static_cast<int64_t>(str_count_);
-       ++str_id) {
+  for (size_t str_idx = 0; str_idx < str_count_; ++str_idx) {
+    const auto str_id = indexToId(str_idx);
     if (getOwnedStringChecked(str_id) != rhs.getOwnedStringChecked(str_id)) {
       return false;
     }
-- 
2.43.0


From 69f026bfe01580e4227caae2f1a15081844e1353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:57 +0000
Subject: [PATCH 07/32] fix: fast::StringDictionary::getBulk reads the
 dictionary under its lock

---
 omniscidb/StringDictionary/StringDictionary.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 140b836..bdc66a6 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1706,6 +1706,7 @@ template <class T, class String>
 size_t StringDictionary::getBulk(const std::vector<String>& string_vec,
                                  T* encoded_vec,
                                  const int64_t generation) const {
+  mapd_shared_lock<mapd_shared_mutex> read_lock(rw_mutex_);
   return tbb::parallel_reduce(
       tbb::blocked_range<size_t>(0, string_vec.size()),
       size_t(0),
-- 
2.43.0


From 775a6148f39f163eebe958cfec6b6fa3f0d1c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:29 +0000
Subject: [PATCH 08/32] fix: bulk string addition into an empty dictionary
 looks up its first string in memory

---
 omniscidb/StringDictionary/StringDictionary.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index bdc66a6..7e219a7 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1268,8 +1268,7 @@ uint32_t StringDictionary::computeBucketFromStorageAndMemory(
     }
     auto candidate_string_index = idToIndex(candidate_string_id);
     if (!materialize_hashes_ || (input_string_hash == hashById(candidate_string_id))) {
-      if (candidate_string_index > 0 &&
-          static_cast<size_t>(candidate_string_index) >= storage_high_water_mark) {
+      if (static_cast<size_t>(candidate_string_index) >= storage_high_water_mark) {
         // The candidate string is not in storage yet but in our string_memory_ids temp
         // buffer
         size_t memory_offset =
-- 
2.43.0


From fd399bb2cdc204eb6851ed320e837643c928d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:14 +0000
Subject: [PATCH 09/32] fix: expression equality compares every attribute and
 operand

---
 omniscidb/IR/Expr.cpp | 80 +++++++++++++++++++++++++------------------
 omniscidb/IR/Expr.h   | 10 ++++--
 2 files changed, 55 insertions(+), 35 deletions(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index d52b9aa..6e4cb0b 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -975,9 +975,12 @@ bool ColumnVar::operator==(const Expr& rhs) const {
     return false;
   }
   const ColumnVar& rhs_cv = dynamic_cast<const ColumnVar&>(rhs);
+  if (rte_idx_ != rhs_cv.rteIdx()) {
+    return false;
+  }
   if (rte_idx_ != -1) {
-    return (tableId() == rhs_cv.tableId()) && (columnId() == rhs_cv.columnId()) &&
-           (rte_idx_ == rhs_cv.rteIdx());
+    return (dbId() == rhs_cv.dbId()) && (tableId() == rhs_cv.tableId()) &&
+           (columnId() == rhs_cv.columnId());
   }
   const Var* v = dynamic_cast<const Var*>(this);
   if (v == nullptr) {
@@ -1011,7 +1014,11 @@ bool Constant::operator==(const Expr& rhs) const {
     return true;
   }
   if (type_->isArray()) {
-    return false;
+    return std::equal(value_list_.begin(),
+                      value_list_.end(),
+                      rhs_c.value_list_.begin(),
+                      rhs_c.value_list_.end(),
+                      [](const ExprPtr& l, const ExprPtr& r) { return *l == *r; });
   }
   return DatumEqual(value_, rhs_c.value(), type_);
 }
@@ -1021,7 +1028,8 @@ bool UOper::operator==(const Expr& rhs) const {
     return false;
   }
   const UOper& rhs_uo = dynamic_cast<const UOper&>(rhs);
-  return op_type_ == rhs_uo.opType() && *operand_ == *rhs_uo.operand() &&
+  return type_->equal(rhs.type()) && op_type_ == rhs_uo.opType() &&
+         *operand_ == *rhs_uo.operand() &&
          is_dict_intersection_ == rhs_uo.is_dict_intersection_;
 }
 
@@ -1030,7 +1038,8 @@ bool BinOper::operator==(const Expr& rhs) const {
     return false;
   }
   const BinOper& rhs_bo = dynamic_cast<const BinOper&>(rhs);
-  return op_type_ == rhs_bo.opType() && *left_operand_ == *rhs_bo.leftOperand() &&
+  return type_->equal(rhs.type()) && op_type_ == rhs_bo.opType() &&
+         qualifier_ == rhs_bo.qualifier() && *left_operand_ == *rhs_bo.leftOperand() &&
          *right_operand_ == *rhs_bo.rightOperand();
 }
 
@@ -1046,7 +1055,7 @@ bool RangeOper::operator==(const Expr& rhs) const {
 }
 
 bool CharLengthExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(CharLengthExpr)) {
+  if (typeid(rhs) != typeid(CharLengthExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   const CharLengthExpr& rhs_cl = dynamic_cast<const CharLengthExpr&>(rhs);
@@ -1057,7 +1066,7 @@ bool CharLengthExpr::operator==(const Expr& rhs) const {
 }
 
 bool KeyForStringExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(KeyForStringExpr)) {
+  if (typeid(rhs) != typeid(KeyForStringExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   const KeyForStringExpr& rhs_cl = dynamic_cast<const KeyForStringExpr&>(rhs);
@@ -1068,7 +1077,7 @@ bool KeyForStringExpr::operator==(const Expr& rhs) const {
 }
 
 bool SampleRatioExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(SampleRatioExpr)) {
+  if (typeid(rhs) != typeid(SampleRatioExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   const SampleRatioExpr& rhs_cl = dynamic_cast<const SampleRatioExpr&>(rhs);
@@ -1079,7 +1088,7 @@ bool SampleRatioExpr::operator==(const Expr& rhs) const {
 }
 
 bool LowerExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(LowerExpr)) {
+  if (typeid(rhs) != typeid(LowerExpr) || !type_->equal(rhs.type())) {
     return false;
   }
 
@@ -1087,7 +1096,7 @@ bool LowerExpr::operator==(const Expr& rhs) const {
 }
 
 bool CardinalityExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(CardinalityExpr)) {
+  if (typeid(rhs) != typeid(CardinalityExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   const CardinalityExpr& rhs_ca = dynamic_cast<const CardinalityExpr&>(rhs);
@@ -1098,12 +1107,12 @@ bool CardinalityExpr::operator==(const Expr& rhs) const {
 }
 
 bool LikeExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(LikeExpr)) {
+  if (typeid(rhs) != typeid(LikeExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   const LikeExpr& rhs_lk = dynamic_cast<const LikeExpr&>(rhs);
   if (!(*arg_ == *rhs_lk.arg()) || !(*like_expr_ == *rhs_lk.likeExpr()) ||
-      is_ilike_ != rhs_lk.isIlike()) {
+      is_ilike_ != rhs_lk.isIlike() || is_simple_ != rhs_lk.isSimple()) {
     return false;
   }
   if (escape_expr_.get() == rhs_lk.escapeExpr()) {
@@ -1117,7 +1126,7 @@ bool LikeExpr::operator==(const Expr& rhs) const {
 }
 
 bool RegexpExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(RegexpExpr)) {
+  if (typeid(rhs) != typeid(RegexpExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   const RegexpExpr& rhs_re = dynamic_cast<const RegexpExpr&>(rhs);
@@ -1135,7 +1144,7 @@ bool RegexpExpr::operator==(const Expr& rhs) const {
 }
 
 bool WidthBucketExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(WidthBucketExpr)) {
+  if (typeid(rhs) != typeid(WidthBucketExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   const WidthBucketExpr& rhs_l = dynamic_cast<const WidthBucketExpr&>(rhs);
@@ -1155,7 +1164,7 @@ bool WidthBucketExpr::operator==(const Expr& rhs) const {
 }
 
 bool LikelihoodExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(LikelihoodExpr)) {
+  if (typeid(rhs) != typeid(LikelihoodExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   const LikelihoodExpr& rhs_l = dynamic_cast<const LikelihoodExpr&>(rhs);
@@ -1169,7 +1178,7 @@ bool LikelihoodExpr::operator==(const Expr& rhs) const {
 }
 
 bool InValues::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(InValues)) {
+  if (typeid(rhs) != typeid(InValues) || !type_->equal(rhs.type())) {
     return false;
   }
   const InValues& rhs_iv = dynamic_cast<const InValues&>(rhs);
@@ -1190,7 +1199,7 @@ bool InValues::operator==(const Expr& rhs) const {
 }
 
 bool AggExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(AggExpr)) {
+  if (typeid(rhs) != typeid(AggExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   const AggExpr& rhs_ae = dynamic_cast<const AggExpr&>(rhs);
@@ -1198,17 +1207,14 @@ bool AggExpr::operator==(const Expr& rhs) const {
       interpolation_ != rhs_ae.interpolation_) {
     return false;
   }
-  if (arg_.get() == rhs_ae.arg()) {
-    return true;
-  }
-  if (arg_ == nullptr || rhs_ae.arg() == nullptr) {
-    return false;
-  }
-  return *arg_ == *rhs_ae.arg();
+  auto args_equal = [](const Expr* l, const Expr* r) {
+    return l == r || (l != nullptr && r != nullptr && *l == *r);
+  };
+  return args_equal(arg(), rhs_ae.arg()) && args_equal(arg1(), rhs_ae.arg1());
 }
 
 bool CaseExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(CaseExpr)) {
+  if (typeid(rhs) != typeid(CaseExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   const CaseExpr& rhs_ce = dynamic_cast<const CaseExpr&>(rhs);
@@ -1231,7 +1237,7 @@ bool CaseExpr::operator==(const Expr& rhs) const {
 }
 
 bool ExtractExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(ExtractExpr)) {
+  if (typeid(rhs) != typeid(ExtractExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   const ExtractExpr& rhs_ee = dynamic_cast<const ExtractExpr&>(rhs);
@@ -1239,7 +1245,7 @@ bool ExtractExpr::operator==(const Expr& rhs) const {
 }
 
 bool DateAddExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(DateAddExpr)) {
+  if (typeid(rhs) != typeid(DateAddExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   const DateAddExpr& rhs_ee = dynamic_cast<const DateAddExpr&>(rhs);
@@ -1248,7 +1254,7 @@ bool DateAddExpr::operator==(const Expr& rhs) const {
 }
 
 bool DateDiffExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(DateDiffExpr)) {
+  if (typeid(rhs) != typeid(DateDiffExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   const DateDiffExpr& rhs_ee = dynamic_cast<const DateDiffExpr&>(rhs);
@@ -1256,7 +1262,7 @@ bool DateDiffExpr::operator==(const Expr& rhs) const {
 }
 
 bool DateTruncExpr::operator==(const Expr& rhs) const {
-  if (typeid(rhs) != typeid(DateTruncExpr)) {
+  if (typeid(rhs) != typeid(DateTruncExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   const DateTruncExpr& rhs_ee = dynamic_cast<const DateTruncExpr&>(rhs);
@@ -1272,6 +1278,9 @@ bool WindowFunction::operator==(const Expr& rhs) const {
   if (!rhs_window) {
     return false;
   }
+  if (!type_->equal(rhs.type())) {
+    return false;
+  }
   if (kind_ != rhs_window->kind_ || args_.size() != rhs_window->args_.size() ||
       partition_keys_.size() != rhs_window->partition_keys_.size() ||
       order_keys_.size() != rhs_window->order_keys_.size()) {
@@ -1279,14 +1288,19 @@ bool WindowFunction::operator==(const Expr& rhs) const {
   }
   return exprsEqual(args_, rhs_window->args_) &&
          exprsEqual(partition_keys_, rhs_window->partition_keys_) &&
-         exprsEqual(order_keys_, rhs_window->order_keys_);
+         exprsEqual(order_keys_, rhs_window->order_keys_) &&
+         collation_ == rhs_window->collation_;
 }
 
 bool ArrayExpr::operator==(Expr const& rhs) const {
-  if (typeid(rhs) != typeid(ArrayExpr)) {
+  if (typeid(rhs) != typeid(ArrayExpr) || !type_->equal(rhs.type())) {
     return false;
   }
   ArrayExpr const& casted_rhs = static_cast<ArrayExpr const&>(rhs);
+  if (contained_expressions_.size() != casted_rhs.contained_expressions_.size() ||
+      local_alloc_ != casted_rhs.local_alloc_) {
+    return false;
+  }
   for (unsigned i = 0; i < contained_expressions_.size(); i++) {
     auto& lhs_expr = contained_expressions_[i];
     auto& rhs_expr = casted_rhs.contained_expressions_[i];
@@ -1483,7 +1497,7 @@ bool InIntegerSet::operator==(const Expr& rhs) const {
     return false;
   }
   const auto& rhs_in_integer_set = static_cast<const InIntegerSet&>(rhs);
-  return *arg_ == *rhs_in_integer_set.arg_ &&
+  return type_->equal(rhs.type()) && *arg_ == *rhs_in_integer_set.arg_ &&
          value_list_ == rhs_in_integer_set.value_list_;
 }
 
@@ -1703,7 +1717,7 @@ ExprPtr FunctionOper::withType(const Type* new_type) const {
 }
 
 bool FunctionOper::operator==(const Expr& rhs) const {
-  if (!type_->equal(rhs.type())) {
+  if (typeid(rhs) != typeid(*this) || !type_->equal(rhs.type())) {
     return false;
   }
   const auto rhs_func_oper = dynamic_cast<const FunctionOper*>(&rhs);
diff --git a/omniscidb/IR/Expr.h b/omniscidb/IR/Expr.h
index 3b83480..ccf5358 100644
--- a/omniscidb/IR/Expr.h
+++ b/omniscidb/IR/Expr.h
@@ -422,7 +422,7 @@ class ScalarSubquery : public Expr {
 
   bool operator==(const Expr& rhs) const override {
     const ScalarSubquery* rhsp = dynamic_cast<const ScalarSubquery*>(&rhs);
-    return rhsp && node_ == rhsp->node_;
+    return rhsp && type_->equal(rhs.type()) && node_ == rhsp->node_;
   }
 
   std::string toString() const override;
@@ -502,7 +502,8 @@ class InSubquery : public Expr {
 
   bool operator==(const Expr& rhs) const override {
     const InSubquery* rhsp = dynamic_cast<const InSubquery*>(&rhs);
-    return rhsp && node_ == rhsp->node_;
+    return rhsp && type_->equal(rhs.type()) && *arg_ == *rhsp->arg_ &&
+           node_ == rhsp->node_;
   }
 
   std::string toString() const override;
@@ -1022,6 +1023,11 @@ struct OrderEntry {
   OrderEntry(int t, bool d, bool nf) : tle_no(t), is_desc(d), nulls_first(nf){};
   ~OrderEntry() {}
 
+  bool operator==(const OrderEntry& other) const {
+    return tle_no == other.tle_no && is_desc == other.is_desc &&
+           nulls_first == other.nulls_first;
+  }
+
   std::string toString() const;
   void print() const;
 
-- 
2.43.0


From 2c734fbc9c248a40241c0d706a6659255f2ce417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:49 +0000
Subject: [PATCH 10/32] fix: expression visitors handle range operators and an
 omitted ELSE, rewriting keeps dictionary intersection casts

---
 omniscidb/IR/Expr.h         |  2 ++
 omniscidb/IR/ExprRewriter.h | 22 +++++++++++++++++++---
 omniscidb/IR/ExprVisitor.h  | 13 ++++++++++++-
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/omniscidb/IR/Expr.h b/omniscidb/IR/Expr.h
index ccf5358..47b09db 100644
--- a/omniscidb/IR/Expr.h
+++ b/omniscidb/IR/Expr.h
@@ -395,6 +395,8 @@ class RangeOper : public Expr {
     CHECK(right_operand_);
   }
 
+  bool leftInclusive() const { return left_inclusive_; }
+  bool rightInclusive() const { return right_inclusive_; }
   const Expr* leftOperand() const { return left_operand_.get(); }
   const Expr* rightOperand() const { return right_operand_.get(); }
 
diff --git a/omniscidb/IR/ExprRewriter.h b/omniscidb/IR/ExprRewriter.h
index dfd1b32..691d7f9 100644
--- a/omniscidb/IR/ExprRewriter.h
+++ b/omniscidb/IR/ExprRewriter.h
@@ -41,11 +41,14 @@ class ExprRewriter : public ExprVisitor<ExprPtr> {
     if (new_op.get() != uoper->operand()) {
       // For casts it is better to use cast method to benefit
       // from additional folding.
-      if (uoper->isCast()) {
+      if (uoper->isCast() && !uoper->isDictIntersection()) {
         return new_op->cast(uoper->type());
       }
-      return hdk::ir::makeExpr<hdk::ir::UOper>(
-          uoper->type(), uoper->containsAgg(), uoper->opType(), new_op);
+      return hdk::ir::makeExpr<hdk::ir::UOper>(uoper->type(),
+                                               uoper->containsAgg(),
+                                               uoper->opType(),
+                                               new_op,
+                                               uoper->isDictIntersection());
     }
     return defaultResult(uoper);
   }
@@ -65,6 +68,19 @@ class ExprRewriter : public ExprVisitor<ExprPtr> {
     return defaultResult(bin_oper);
   }
 
+  ExprPtr visitRangeOper(const hdk::ir::RangeOper* range_oper) override {
+    auto new_lhs = visit(range_oper->leftOperand());
+    auto new_rhs = visit(range_oper->rightOperand());
+    if (new_lhs.get() != range_oper->leftOperand() ||
+        new_rhs.get() != range_oper->rightOperand()) {
+      return hdk::ir::makeExpr<hdk::ir::RangeOper>(range_oper->leftInclusive(),
+                                                   range_oper->rightInclusive(),
+                                                   new_lhs,
+                                                   new_rhs);
+    }
+    return defaultResult(range_oper);
+  }
+
   ExprPtr visitInValues(const hdk::ir::InValues* in_values) override {
     bool rewrite = false;
     std::list<ExprPtr> new_list;
diff --git a/omniscidb/IR/ExprVisitor.h b/omniscidb/IR/ExprVisitor.h
index 28aabc5..6711194 100644
--- a/omniscidb/IR/ExprVisitor.h
+++ b/omniscidb/IR/ExprVisitor.h
@@ -39,6 +39,9 @@ class ExprVisitor {
     if (auto bin_oper = expr->as<BinOper>()) {
       return visitBinOper(bin_oper);
     }
+    if (auto range_oper = expr->as<RangeOper>()) {
+      return visitRangeOper(range_oper);
+    }
     if (auto scalar_subquery = expr->as<ScalarSubquery>()) {
       return visitScalarSubquery(scalar_subquery);
     }
@@ -150,6 +153,12 @@ class ExprVisitor {
     return defaultResult(bin_oper);
   }
 
+  virtual T visitRangeOper(const hdk::ir::RangeOper* range_oper) {
+    visit(range_oper->leftOperand());
+    visit(range_oper->rightOperand());
+    return defaultResult(range_oper);
+  }
+
   virtual T visitScalarSubquery(const hdk::ir::ScalarSubquery* subquery) {
     return defaultResult(subquery);
   }
@@ -223,7 +232,9 @@ class ExprVisitor {
       visit(expr_pair.first.get());
       visit(expr_pair.second.get());
     }
-    visit(case_expr->elseExpr());
+    if (case_expr->elseExpr()) {
+      visit(case_expr->elseExpr());
+    }
     return defaultResult(case_expr);
   }
 
-- 
2.43.0


From cb35c5fd3241972521cb630fa6de195706149ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:34 +0000
Subject: [PATCH 11/32] fix: equality of slot layouts and input columns
 compares sizes, variable-length slots and the database

---
 omniscidb/QueryEngine/Descriptors/InputDescriptors.h | 1 +
 omniscidb/ResultSet/ColSlotContext.h                 | 7 ++-----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/omniscidb/QueryEngine/Descriptors/InputDescriptors.h b/omniscidb/QueryEngine/Descriptors/InputDescriptors.h
index fb05ce4..580abec 100644
--- a/omniscidb/QueryEngine/Descriptors/InputDescriptors.h
+++ b/omniscidb/QueryEngine/Descriptors/InputDescriptors.h
@@ -74,6 +74,7 @@ class InputColDescriptor {
 
   bool operator==(const InputColDescriptor& that) const {
     return getColId() == that.getColId() && getTableId() == that.getTableId() &&
+           getDatabaseId() == that.getDatabaseId() &&
            getNestLevel() == that.getNestLevel();
   }
 
diff --git a/omniscidb/ResultSet/ColSlotContext.h b/omniscidb/ResultSet/ColSlotContext.h
index e7a6cc8..cd965ea 100644
--- a/omniscidb/ResultSet/ColSlotContext.h
+++ b/omniscidb/ResultSet/ColSlotContext.h
@@ -101,11 +101,8 @@ class ColSlotContext {
   void addColumn(const std::vector<std::tuple<int8_t, int8_t>>& slots_for_col);
 
   bool operator==(const ColSlotContext& that) const {
-    return std::equal(
-               slot_sizes_.cbegin(), slot_sizes_.cend(), that.slot_sizes_.cbegin()) &&
-           std::equal(col_to_slot_map_.cbegin(),
-                      col_to_slot_map_.cend(),
-                      that.col_to_slot_map_.cbegin());
+    return slot_sizes_ == that.slot_sizes_ && col_to_slot_map_ == that.col_to_slot_map_ &&
+           varlen_output_slot_map_ == that.varlen_output_slot_map_;
   }
 
   bool operator!=(const ColSlotContext& that) const { return !(*this == that); }
-- 
2.43.0


From e45b10cb48614c524637acc5d640cfda3afcc0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:34 +0000
Subject: [PATCH 12/32] fix: equal expressions hash equally (columns with
 different types, Var and ColumnVar, cached aggregate flag)

---
 omniscidb/IR/Expr.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 6e4cb0b..8fca2e7 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1853,14 +1853,14 @@ size_t Expr::hash() const {
   if (!hash_) {
     hash_ = typeid(*this).hash_code();
     boost::hash_combine(*hash_, type_->toString());
-    boost::hash_combine(*hash_, contains_agg_);
   }
   return *hash_;
 }
 
 size_t ColumnRef::hash() const {
   if (!hash_) {
-    hash_ = Expr::hash();
+    // Columns are compared by what they reference, not by their type.
+    hash_ = typeid(ColumnRef).hash_code();
     boost::hash_combine(*hash_, node_->toHash());
     boost::hash_combine(*hash_, idx_);
   }
@@ -1869,9 +1869,12 @@ size_t ColumnRef::hash() const {
 
 size_t ColumnVar::hash() const {
   if (!hash_) {
-    hash_ = Expr::hash();
+    // A ColumnVar and a Var of the same table column are equal whatever their types.
+    hash_ = typeid(ColumnVar).hash_code();
     boost::hash_combine(*hash_, rte_idx_);
-    boost::hash_combine(*hash_, col_info_->hash());
+    if (rte_idx_ != -1) {
+      boost::hash_combine(*hash_, col_info_->hash());
+    }
   }
   return *hash_;
 }
@@ -1889,8 +1892,10 @@ size_t ExpressionTuple::hash() const {
 size_t Var::hash() const {
   if (!hash_) {
     hash_ = ColumnVar::hash();
-    boost::hash_combine(*hash_, which_row_);
-    boost::hash_combine(*hash_, var_no_);
+    if (rte_idx_ == -1) {
+      boost::hash_combine(*hash_, which_row_);
+      boost::hash_combine(*hash_, var_no_);
+    }
   }
   return *hash_;
 }
-- 
2.43.0


From 8734fc534ec662feda7968aa4999d2b0c5873da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:09 +0000
Subject: [PATCH 13/32] fix: copying an Aggregate keeps its partitioning and
 size hint, a node's DAG id is initialised

---
 omniscidb/IR/Node.cpp | 4 +++-
 omniscidb/IR/Node.h   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/omniscidb/IR/Node.cpp b/omniscidb/IR/Node.cpp
index ea9dd75..569d74b 100644
--- a/omniscidb/IR/Node.cpp
+++ b/omniscidb/IR/Node.cpp
@@ -192,7 +192,9 @@ Aggregate::Aggregate(Aggregate const& rhs)
     : Node(rhs)
     , groupby_count_(rhs.groupby_count_)
     , aggs_(rhs.aggs_)
-    , fields_(rhs.fields_) {}
+    , fields_(rhs.fields_)
+    , partitioned_(rhs.partitioned_)
+    , buffer_entry_count_hint_(rhs.buffer_entry_count_hint_) {}
 
 void Aggregate::rewriteExprs(hdk::ir::ExprRewriter& rewriter) {
   for (size_t i = 0; i < aggs_.size(); ++i) {
diff --git a/omniscidb/IR/Node.h b/omniscidb/IR/Node.h
index b1331b3..a9c5cb9 100644
--- a/omniscidb/IR/Node.h
+++ b/omniscidb/IR/Node.h
@@ -199,7 +199,7 @@ class Node {
   bool is_nop_;
   mutable std::vector<TargetMetaInfo> targets_metainfo_;
   static std::atomic<unsigned> crt_id_;
-  mutable size_t dag_node_id_;
+  mutable size_t dag_node_id_ = 0;
   mutable std::shared_ptr<const ExecutionResult> result_;
 };
 
-- 
2.43.0


From 5540532d97c5dc2a217e15fbf3e94264fb5d79a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:09 +0000
Subject: [PATCH 14/32] fix: plan node hashes cover the node's inputs, literal
 rows, join columns and database

---
 omniscidb/IR/Node.cpp |  3 +++
 omniscidb/IR/Node.h   | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/omniscidb/IR/Node.cpp b/omniscidb/IR/Node.cpp
index 569d74b..af7e3b7 100644
--- a/omniscidb/IR/Node.cpp
+++ b/omniscidb/IR/Node.cpp
@@ -269,6 +269,9 @@ size_t LogicalUnion::toHash() const {
   if (!hash_) {
     hash_ = typeid(LogicalUnion).hash_code();
     boost::hash_combine(*hash_, is_all_);
+    for (auto& node : inputs_) {
+      boost::hash_combine(*hash_, node->toHash());
+    }
   }
   return *hash_;
 }
diff --git a/omniscidb/IR/Node.h b/omniscidb/IR/Node.h
index a9c5cb9..64e5eff 100644
--- a/omniscidb/IR/Node.h
+++ b/omniscidb/IR/Node.h
@@ -269,6 +269,7 @@ class Scan : public Node {
   size_t toHash() const override {
     if (!hash_) {
       hash_ = typeid(Scan).hash_code();
+      boost::hash_combine(*hash_, table_info_->db_id);
       boost::hash_combine(*hash_, table_info_->table_id);
       boost::hash_combine(*hash_, table_info_->name);
       for (auto& info : column_infos_) {
@@ -356,6 +357,9 @@ class Project : public Node {
       for (auto& expr : exprs_) {
         boost::hash_combine(*hash_, expr->hash());
       }
+      for (auto& node : inputs_) {
+        boost::hash_combine(*hash_, node->toHash());
+      }
       boost::hash_combine(*hash_, ::toString(fields_));
     }
     return *hash_;
@@ -437,6 +441,7 @@ class Aggregate : public Node {
     if (!hash_) {
       hash_ = typeid(Aggregate).hash_code();
       boost::hash_combine(*hash_, groupby_count_);
+      boost::hash_combine(*hash_, partitioned_);
       for (auto& agg : aggs_) {
         boost::hash_combine(*hash_, agg->hash());
       }
@@ -578,6 +583,12 @@ class TranslatedJoin : public Node {
       hash_ = typeid(TranslatedJoin).hash_code();
       boost::hash_combine(*hash_, lhs_->toHash());
       boost::hash_combine(*hash_, rhs_->toHash());
+      for (auto& col : lhs_join_cols_) {
+        boost::hash_combine(*hash_, col->hash());
+      }
+      for (auto& col : rhs_join_cols_) {
+        boost::hash_combine(*hash_, col->hash());
+      }
       boost::hash_combine(
           *hash_, outer_join_cond_ ? outer_join_cond_->hash() : boost::hash_value("n"));
       boost::hash_combine(*hash_, nested_loop_);
@@ -808,6 +819,11 @@ class LogicalValues : public Node {
         boost::hash_combine(*hash_, target_meta_info.get_resname());
         boost::hash_combine(*hash_, target_meta_info.type()->toString());
       }
+      for (auto& row : values_) {
+        for (auto& value : row) {
+          boost::hash_combine(*hash_, value->hash());
+        }
+      }
     }
     return *hash_;
   }
-- 
2.43.0


From 6378def894cd9528c1508b407f61278208b86cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:56 +0000
Subject: [PATCH 15/32] fix: copying a type to another context copies its
 element type, column types show their nullability

---
 omniscidb/IR/Context.cpp | 19 +++++++++++++++----
 omniscidb/IR/Type.cpp    |  5 +++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/omniscidb/IR/Context.cpp b/omniscidb/IR/Context.cpp
index 62ad477..fcd9cdd 100644
--- a/omniscidb/IR/Context.cpp
+++ b/omniscidb/IR/Context.cpp
@@ -294,19 +294,30 @@ class ContextImpl {
       case Type::kFixedLenArray: {
         auto fixed_array_type = static_cast<const FixedLenArrayType*>(type);
         return arrayFixed(fixed_array_type->numElems(),
-                          fixed_array_type->elemType(),
+                          copyType(fixed_array_type->elemType()),
                           fixed_array_type->nullable());
       }
       case Type::kVarLenArray: {
         auto varlen_array_type = static_cast<const VarLenArrayType*>(type);
-        return arrayVarLen(varlen_array_type->elemType(),
+        return arrayVarLen(copyType(varlen_array_type->elemType()),
                            varlen_array_type->offsetSize(),
                            varlen_array_type->nullable());
       }
       case Type::kExtDictionary: {
         auto ext_dict_type = static_cast<const ExtDictionaryType*>(type);
-        return extDict(
-            ext_dict_type->elemType(), ext_dict_type->dictId(), ext_dict_type->size());
+        return extDict(copyType(ext_dict_type->elemType()),
+                       ext_dict_type->dictId(),
+                       ext_dict_type->size());
+      }
+      case Type::kColumn: {
+        auto column_type = static_cast<const ColumnType*>(type);
+        return column(copyType(column_type->columnType()), column_type->nullable());
+      }
+      case Type::kColumnList: {
+        auto column_list_type = static_cast<const ColumnListType*>(type);
+        return columnList(copyType(column_list_type->columnType()),
+                          column_list_type->length(),
+                          column_list_type->nullable());
       }
       default:
         throw InvalidTypeError() << "Unexpected type: " << type;
diff --git a/omniscidb/IR/Type.cpp b/omniscidb/IR/Type.cpp
index e4a6ce7..88525ac 100644
--- a/omniscidb/IR/Type.cpp
+++ b/omniscidb/IR/Type.cpp
@@ -478,7 +478,7 @@ bool ColumnType::equal(const Type& other) const {
 
 std::string ColumnType::toString() const {
   std::stringstream ss;
-  ss << "COLUMN(" << column_type_->toString() << ")";
+  ss << "COLUMN(" << column_type_->toString() << ")" << nullableStr();
   return ss.str();
 }
 
@@ -512,7 +512,8 @@ bool ColumnListType::equal(const Type& other) const {
 
 std::string ColumnListType::toString() const {
   std::stringstream ss;
-  ss << "COLUMN_LIST" << length_ << "(" << column_type_->toString() << ")";
+  ss << "COLUMN_LIST" << length_ << "(" << column_type_->toString() << ")"
+     << nullableStr();
   return ss.str();
 }
 
-- 
2.43.0


From 060fb34552ad251d8e4681f0ee9a7f77340f95cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:59 +0000
Subject: [PATCH 16/32] fix: the literal string proxy, the cloned dictionary
 data and the row cursor are accessed under their locks

---
 omniscidb/ResultSet/ResultSet.cpp          | 6 ++++++
 omniscidb/ResultSet/ResultSet.h            | 2 ++
 omniscidb/ResultSet/ResultSetIteration.cpp | 2 +-
 omniscidb/ResultSet/RowSetMemoryOwner.cpp  | 1 +
 omniscidb/ResultSet/RowSetMemoryOwner.h    | 1 +
 5 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/omniscidb/ResultSet/ResultSet.cpp b/omniscidb/ResultSet/ResultSet.cpp
index 300c087..43b466b 100644
--- a/omniscidb/ResultSet/ResultSet.cpp
+++ b/omniscidb/ResultSet/ResultSet.cpp
@@ -400,6 +400,7 @@ const ResultSetStorage* ResultSet::allocateStorage(
 }
 
 size_t ResultSet::getCurrentRowBufferIndex() const {
+  std::lock_guard<std::mutex> lock(row_iteration_mutex_);
   if (crt_row_buff_idx_ == 0) {
     throw std::runtime_error("current row buffer iteration index is undefined");
   }
@@ -751,6 +752,11 @@ int64_t ResultSet::getQueueTime() const {
 }
 
 void ResultSet::moveToBegin() const {
+  std::lock_guard<std::mutex> lock(row_iteration_mutex_);
+  moveToBeginUnlocked();
+}
+
+void ResultSet::moveToBeginUnlocked() const {
   crt_row_buff_idx_ = 0;
   fetched_so_far_ = 0;
 }
diff --git a/omniscidb/ResultSet/ResultSet.h b/omniscidb/ResultSet/ResultSet.h
index 400c413..51cc467 100644
--- a/omniscidb/ResultSet/ResultSet.h
+++ b/omniscidb/ResultSet/ResultSet.h
@@ -653,6 +653,8 @@ class ResultSet {
   std::vector<TargetValue> getNextRowImpl(const bool translate_strings,
                                           const bool decimal_to_double) const;
 
+  void moveToBeginUnlocked() const;
+
   std::vector<TargetValue> getNextRowUnlocked(const bool translate_strings,
                                               const bool decimal_to_double) const;
 
diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index 38153c2..ee97399 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -188,7 +188,7 @@ std::vector<TargetValue> ResultSet::getRowAt(const size_t row_idx,
                                              const bool translate_strings,
                                              const bool decimal_to_double) const {
   std::lock_guard<std::mutex> lock(row_iteration_mutex_);
-  moveToBegin();
+  moveToBeginUnlocked();
   for (size_t i = 0; i < row_idx; ++i) {
     auto crt_row = getNextRowUnlocked(translate_strings, decimal_to_double);
     CHECK(!crt_row.empty());
diff --git a/omniscidb/ResultSet/RowSetMemoryOwner.cpp b/omniscidb/ResultSet/RowSetMemoryOwner.cpp
index fc01e3b..d4ebc7f 100644
--- a/omniscidb/ResultSet/RowSetMemoryOwner.cpp
+++ b/omniscidb/ResultSet/RowSetMemoryOwner.cpp
@@ -57,6 +57,7 @@ StringDictionary* RowSetMemoryOwner::getOrAddStringDictProxy(const int dict_id_i
     return res.get();
   }
   CHECK_EQ(dict_id, DictRef::literalsDictId);
+  std::lock_guard<std::mutex> lock(state_mutex_);
   if (!lit_str_dict_proxy_) {
     DictRef literal_dict_ref(DictRef::invalidDbId, DictRef::literalsDictId);
     std::shared_ptr<StringDictionary> tsd =
diff --git a/omniscidb/ResultSet/RowSetMemoryOwner.h b/omniscidb/ResultSet/RowSetMemoryOwner.h
index 0e8d8ae..772ae5a 100644
--- a/omniscidb/ResultSet/RowSetMemoryOwner.h
+++ b/omniscidb/ResultSet/RowSetMemoryOwner.h
@@ -261,6 +261,7 @@ class RowSetMemoryOwner final : public SimpleAllocator, boost::noncopyable {
   std::shared_ptr<RowSetMemoryOwner> cloneStrDictDataOnly() {
     auto rtn = std::make_shared<RowSetMemoryOwner>(
         data_provider_, arena_block_size_, /*num_kernels=*/1);
+    std::lock_guard<std::mutex> lock(state_mutex_);
     rtn->str_dict_proxy_owned_ = str_dict_proxy_owned_;
     rtn->lit_str_dict_proxy_ = lit_str_dict_proxy_;
     return rtn;
-- 
2.43.0


From 0e8e8b9c215ad8fe895c2218200f168c5f2faaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:20 +0000
Subject: [PATCH 17/32] fix: the buffer pool's segments, chunk index and
 counters are accessed under their locks

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 86 +++++++++++++++++------
 omniscidb/DataMgr/BufferMgr/BufferMgr.h   |  6 ++
 2 files changed, 71 insertions(+), 21 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index fc710d4..a6728d1 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -84,6 +84,12 @@ BufferMgr::~BufferMgr() {
 }
 
 void BufferMgr::reinit() {
+  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
+  reinitNoLock();
+}
+
+void BufferMgr::reinitNoLock() {
+  // It is assumed that caller holds a lock on sized_segs_mutex_.
   num_pages_allocated_ = 0;
   current_max_slab_page_size_ =
       max_num_pages_per_slab_;  // current_max_slab_page_size_ will drop as allocations
@@ -93,6 +99,11 @@ void BufferMgr::reinit() {
 
 void BufferMgr::clear() {
   std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
+  clearNoLock();
+}
+
+void BufferMgr::clearNoLock() {
+  // It is assumed that caller holds a lock on sized_segs_mutex_.
   std::lock_guard<std::mutex> chunk_index_lock(chunk_index_mutex_);
   std::lock_guard<std::mutex> unsized_segs_lock(unsized_segs_mutex_);
 
@@ -145,11 +156,14 @@ AbstractBuffer* BufferMgr::createBuffer(const ChunkKey& chunk_key,
   try {
     allocateBuffer(seg_it, actual_chunk_page_size, initial_size);
   } catch (const OutOfMemory&) {
-    auto buffer_it = chunk_index_.find(chunk_key);
-    CHECK(buffer_it != chunk_index_.end());
-    buffer_it->second->buffer =
-        nullptr;  // constructor failed for the buffer object so make sure to mark it
-                  // null so deleteBuffer doesn't try to delete it
+    {
+      std::lock_guard<std::mutex> lock(chunk_index_mutex_);
+      auto buffer_it = chunk_index_.find(chunk_key);
+      CHECK(buffer_it != chunk_index_.end());
+      buffer_it->second->buffer =
+          nullptr;  // constructor failed for the buffer object so make sure to mark it
+                    // null so deleteBuffer doesn't try to delete it
+    }
     deleteBuffer(chunk_key);
     throw;
   }
@@ -181,6 +195,7 @@ BufferList::iterator BufferMgr::evict(BufferList::iterator& evict_start,
     }
     num_pages += evict_it->num_pages;
     if (evict_it->mem_status == USED && evict_it->chunk_key.size() > 0) {
+      std::lock_guard<std::mutex> chunk_index_lock(chunk_index_mutex_);
       chunk_index_.erase(evict_it->chunk_key);
     }
     if (evict_it->buffer != nullptr) {
@@ -435,7 +450,7 @@ BufferList::iterator BufferMgr::findFreeBuffer(size_t num_bytes) {
   if (best_eviction_start == slab_segments_[0].end()) {
     LOG(ERROR) << "ALLOCATION failed to find " << num_bytes << "B throwing out of memory "
                << getStringMgrType() << ":" << device_id_;
-    VLOG(2) << printSlabs();
+    VLOG(2) << printSlabsNoLock();
     throw OutOfMemory(num_bytes);
   }
   LOG(INFO) << "ALLOCATION failed to find " << num_bytes << "B free. Forcing Eviction."
@@ -449,6 +464,12 @@ BufferList::iterator BufferMgr::findFreeBuffer(size_t num_bytes) {
 }
 
 std::string BufferMgr::printSlab(size_t slab_num) {
+  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
+  return printSlabNoLock(slab_num);
+}
+
+std::string BufferMgr::printSlabNoLock(size_t slab_num) {
+  // It is assumed that caller holds a lock on sized_segs_mutex_.
   std::ostringstream tss;
   // size_t lastEnd = 0;
   tss << "Slab St.Page   Pages  Touch" << std::endl;
@@ -478,26 +499,33 @@ std::string BufferMgr::printSlab(size_t slab_num) {
 }
 
 std::string BufferMgr::printSlabs() {
+  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
+  return printSlabsNoLock();
+}
+
+std::string BufferMgr::printSlabsNoLock() {
+  // It is assumed that caller holds a lock on sized_segs_mutex_.
   std::ostringstream tss;
   tss << std::endl
       << "Slabs Contents: "
       << " " << getStringMgrType() << ":" << device_id_ << std::endl;
   size_t num_slabs = slab_segments_.size();
   for (size_t slab_num = 0; slab_num != num_slabs; ++slab_num) {
-    tss << printSlab(slab_num);
+    tss << printSlabNoLock(slab_num);
   }
   tss << "--------------------" << std::endl;
   return tss.str();
 }
 
 void BufferMgr::clearSlabs() {
+  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
   bool pinned_exists = false;
   for (auto& segment_list : slab_segments_) {
     for (auto& segment : segment_list) {
       if (segment.mem_status == FREE) {
         // no need to free
       } else if (segment.buffer->getPinCount() < 1) {
-        deleteBuffer(segment.chunk_key, true);
+        deleteBufferNoLock(segment.chunk_key);
       } else {
         pinned_exists = true;
       }
@@ -506,8 +534,8 @@ void BufferMgr::clearSlabs() {
   if (!pinned_exists) {
     // lets actually clear the buffer from memory
     freeAllMem();
-    clear();
-    reinit();
+    clearNoLock();
+    reinitNoLock();
   }
 }
 
@@ -518,11 +546,13 @@ size_t BufferMgr::getMaxSize() {
 
 // return how large the buffer are currently allocated
 size_t BufferMgr::getAllocated() {
+  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
   return num_pages_allocated_ * page_size_;
 }
 
 //
 bool BufferMgr::isAllocationCapped() {
+  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
   return allocations_capped_;
 }
 
@@ -532,6 +562,7 @@ size_t BufferMgr::getPageSize() {
 
 // return the size of the chunks in use in bytes
 size_t BufferMgr::getInUseSize() {
+  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
   size_t in_use = 0;
   for (auto& segment_list : slab_segments_) {
     for (auto& segment : segment_list) {
@@ -570,6 +601,7 @@ std::string BufferMgr::printMap() {
   tss << std::endl
       << "Map Contents: "
       << " " << getStringMgrType() << ":" << device_id_ << std::endl;
+  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
   std::lock_guard<std::mutex> chunk_index_lock(chunk_index_mutex_);
   for (auto seg_it = chunk_index_.begin(); seg_it != chunk_index_.end();
        ++seg_it, ++seg_num) {
@@ -590,6 +622,7 @@ void BufferMgr::printSegs() {
   int seg_num = 1;
   int slab_num = 1;
   LOG(INFO) << std::endl << " " << getStringMgrType() << ":" << device_id_;
+  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
   for (auto slab_it = slab_segments_.begin(); slab_it != slab_segments_.end();
        ++slab_it, ++slab_num) {
     LOG(INFO) << "Slab Num: " << slab_num << " " << getStringMgrType() << ":"
@@ -613,6 +646,14 @@ bool BufferMgr::isBufferOnDevice(const ChunkKey& key) {
 /// This method throws a runtime_error when deleting a Chunk that does not exist.
 void BufferMgr::deleteBuffer(const ChunkKey& key, const bool) {
   // Note: purge is unused
+  // The segment lists stay locked so that the segment found cannot be evicted
+  // by another thread before it is removed.
+  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
+  deleteBufferNoLock(key);
+}
+
+void BufferMgr::deleteBufferNoLock(const ChunkKey& key) {
+  // It is assumed that caller holds a lock on sized_segs_mutex_.
   std::unique_lock<std::mutex> chunk_index_lock(chunk_index_mutex_);
 
   // lookup the buffer for the Chunk in chunk_index_
@@ -621,7 +662,6 @@ void BufferMgr::deleteBuffer(const ChunkKey& key, const bool) {
   auto seg_it = buffer_it->second;
   chunk_index_.erase(buffer_it);
   chunk_index_lock.unlock();
-  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
   if (seg_it->buffer) {
     delete seg_it->buffer;  // Delete Buffer for segment
     seg_it->buffer = 0;
@@ -717,20 +757,22 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
       auto buffer_it = chunk_index_.find(key);
       bool found_buffer = buffer_it != chunk_index_.end();
       if (found_buffer) {
-        CHECK(buffer_it->second->buffer);
-        buffer_it->second->buffer->pin();
+        // Segment can be moved by another thread once the locks are released
+        // but pinned buffer stays.
+        auto buffer = buffer_it->second->buffer;
+        CHECK(buffer);
+        buffer->pin();
+        buffer_it->second->last_touched = buffer_epoch_++;
         sized_segs_lock.unlock();
 
-        buffer_it->second->last_touched = buffer_epoch_++;  // race
-
         // If we need to fetch a missing part of buffer, then lock it by
         // creating a conditional variable.
-        if (buffer_it->second->buffer->size() < num_bytes) {
+        if (buffer->size() < num_bytes) {
           in_progress_buffer_cvs_[key] = std::make_shared<std::condition_variable>();
 
           chunk_index_lock.unlock();
           // need to fetch part of buffer we don't have - up to numBytes
-          parent_mgr_->fetchBuffer(key, buffer_it->second->buffer, num_bytes);
+          parent_mgr_->fetchBuffer(key, buffer, num_bytes);
 
           chunk_index_lock.lock();
           in_progress_buffer_cvs_[key]->notify_all();
@@ -740,7 +782,7 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           chunk_index_lock.unlock();
         }
 
-        res = buffer_it->second->buffer;
+        res = buffer;
       } else {  // If wasn't in pool then we need to fetch it
         sized_segs_lock.unlock();
         // Create conditional variable to later notify all other threads
@@ -783,9 +825,9 @@ void BufferMgr::fetchBuffer(const ChunkKey& key,
   // use in_progress_buffer_cvs_ here.
   auto buffer_it = chunk_index_.find(key);
   bool found_buffer = buffer_it != chunk_index_.end();
-  chunk_index_lock.unlock();
   AbstractBuffer* buffer;
   if (!found_buffer) {
+    chunk_index_lock.unlock();
     sized_segs_lock.unlock();
     CHECK(parent_mgr_ != 0);
     if (auto token = getZeroCopyBufferMemory(key, num_bytes)) {
@@ -801,6 +843,7 @@ void BufferMgr::fetchBuffer(const ChunkKey& key,
   } else {
     buffer = buffer_it->second->buffer;
     buffer->pin();
+    chunk_index_lock.unlock();
     sized_segs_lock.unlock();
 
     if (num_bytes > buffer->size()) {
@@ -840,6 +883,7 @@ size_t BufferMgr::getNumChunks() {
 }
 
 size_t BufferMgr::size() {
+  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
   return num_pages_allocated_;
 }
 
@@ -876,8 +920,8 @@ MemoryInfo BufferMgr::getMemoryInfo() {
 
   mi.pageSize = getPageSize();
   mi.maxNumPages = getMaxSize() / mi.pageSize;
-  mi.isAllocationCapped = isAllocationCapped();
-  mi.numPageAllocated = getAllocated() / mi.pageSize;
+  mi.isAllocationCapped = allocations_capped_;
+  mi.numPageAllocated = num_pages_allocated_;
 
   for (size_t slab_num = 0; slab_num < slab_segments_.size(); ++slab_num) {
     for (auto segment : slab_segments_[slab_num]) {
diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.h b/omniscidb/DataMgr/BufferMgr/BufferMgr.h
index 114b953..dced26b 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.h
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.h
@@ -232,6 +232,12 @@ class BufferMgr : public AbstractBufferMgr {  // implements
     return nullptr;
   }
   void clear();
+  // These methods assume that caller holds a lock on sized_segs_mutex_.
+  void clearNoLock();
+  void reinitNoLock();
+  void deleteBufferNoLock(const ChunkKey& key);
+  std::string printSlabNoLock(size_t slab_num);
+  std::string printSlabsNoLock();
 
   std::mutex chunk_index_mutex_;
   std::mutex sized_segs_mutex_;
-- 
2.43.0


From 5c90e990bf729832b4e59780393e21bf60642e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:56 +0000
Subject: [PATCH 18/32] fix: a buffer releases its pin lock before it deletes
 itself

---
 omniscidb/DataMgr/BufferMgr/Buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/DataMgr/BufferMgr/Buffer.h b/omniscidb/DataMgr/BufferMgr/Buffer.h
index 92a880e..1ec1495 100644
--- a/omniscidb/DataMgr/BufferMgr/Buffer.h
+++ b/omniscidb/DataMgr/BufferMgr/Buffer.h
@@ -135,9 +135,10 @@ class Buffer : public AbstractBuffer {
   }
 
   inline int unPin() override {
-    std::lock_guard<std::mutex> pin_lock(pin_mutex_);
+    std::unique_lock<std::mutex> pin_lock(pin_mutex_);
     int res = (--pin_count_);
     if (!res && delete_on_unpin_) {
+      pin_lock.unlock();
       delete this;
     }
     return res;
-- 
2.43.0


From bb9f31440f98a9fc63e14024c91f42df39af268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:56 +0000
Subject: [PATCH 19/32] fix: a failing fetch wakes the threads waiting for it
 and leaves no pinned, incomplete buffer behind

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 29 +++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index a6728d1..adc8d43 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -771,13 +771,22 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           in_progress_buffer_cvs_[key] = std::make_shared<std::condition_variable>();
 
           chunk_index_lock.unlock();
-          // need to fetch part of buffer we don't have - up to numBytes
-          parent_mgr_->fetchBuffer(key, buffer, num_bytes);
 
-          chunk_index_lock.lock();
-          in_progress_buffer_cvs_[key]->notify_all();
-          in_progress_buffer_cvs_.erase(key);
-          chunk_index_lock.unlock();
+          // Waiting threads have to be notified even if fetch fails.
+          ScopeGuard sg([&]() {
+            chunk_index_lock.lock();
+            in_progress_buffer_cvs_[key]->notify_all();
+            in_progress_buffer_cvs_.erase(key);
+            chunk_index_lock.unlock();
+          });
+
+          // need to fetch part of buffer we don't have - up to numBytes
+          try {
+            parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          } catch (...) {
+            buffer->unPin();
+            throw;
+          }
         } else {
           chunk_index_lock.unlock();
         }
@@ -805,7 +814,13 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           AbstractBuffer* buffer = createBuffer(key, page_size_, num_bytes);
           // This should put buffer in a BufferSegment.
           // ColumnarConversionNotSupported exception can be thrown here.
-          parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          try {
+            parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          } catch (...) {
+            // Don't leave pinned buffer with missing data in the pool.
+            deleteBuffer(key);
+            throw;
+          }
           res = buffer;
         }
       }
-- 
2.43.0


From 8bf44848974fc3b66c0c242d1cc283a8b2fb4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:53 +0000
Subject: [PATCH 20/32] fix: translation between string dictionaries locks a
 derived dictionary before its base

---
 omniscidb/StringDictionary/StringDictionary.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 7e219a7..abe6faf 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1590,7 +1590,18 @@ size_t StringDictionaryTranslator::buildDictionaryTranslationMap(
         dest_transient_lookup_callback);
   }
 
-  const bool this_dict_is_locked_first = source_dict < dest_dict;
+  // A dictionary is always locked before the dictionary it is based on.
+  const auto base_depth = [](const StringDictionary* dict) {
+    size_t depth = 0;
+    for (; dict->base_dict_; dict = dict->base_dict_.get()) {
+      ++depth;
+    }
+    return depth;
+  };
+  const auto source_depth = base_depth(source_dict);
+  const auto dest_depth = base_depth(dest_dict);
+  const bool this_dict_is_locked_first =
+      source_depth != dest_depth ? source_depth > dest_depth : source_dict < dest_dict;
   mapd_shared_lock<mapd_shared_mutex> first_read_lock(
       this_dict_is_locked_first ? source_dict->rw_mutex_ : dest_dict->rw_mutex_);
   mapd_shared_lock<mapd_shared_mutex> second_read_lock(
-- 
2.43.0


From f237d1a6b9d4f27cc1926833aa2b605959198931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:45 +0000
Subject: [PATCH 21/32] fix: errors of parallel columnar conversion tasks are
 raised, not dropped

---
 .../ResultSetRegistry/ColumnarResults.cpp      | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/omniscidb/ResultSetRegistry/ColumnarResults.cpp b/omniscidb/ResultSetRegistry/ColumnarResults.cpp
index a22924e..8be4967 100644
--- a/omniscidb/ResultSetRegistry/ColumnarResults.cpp
+++ b/omniscidb/ResultSetRegistry/ColumnarResults.cpp
@@ -213,6 +213,9 @@ void ColumnarResults::materializeAllGroupbyColumnsThroughIteration(
     for (auto& child : conversion_threads) {
       child.wait();
     }
+    for (auto& child : conversion_threads) {
+      child.get();
+    }
   } catch (...) {
     throw;
   }
@@ -606,6 +609,9 @@ void ColumnarResults::copyAllNonLazyColumns(
   for (auto& child : direct_copy_threads) {
     child.wait();
   }
+  for (auto& child : direct_copy_threads) {
+    child.get();
+  }
 }
 
 /**
@@ -676,6 +682,9 @@ void ColumnarResults::materializeAllLazyColumns(
       for (auto& child : conversion_threads) {
         child.wait();
       }
+      for (auto& child : conversion_threads) {
+        child.get();
+      }
     } catch (...) {
       throw;
     }
@@ -770,6 +779,9 @@ void ColumnarResults::locateAndCountEntries(const ResultSet& rows,
     for (auto& child : conversion_threads) {
       child.wait();
     }
+    for (auto& child : conversion_threads) {
+      child.get();
+    }
   } catch (...) {
     throw;
   }
@@ -928,6 +940,9 @@ void ColumnarResults::compactAndCopyEntriesWithTargetSkipping(
     for (auto& child : compaction_threads) {
       child.wait();
     }
+    for (auto& child : compaction_threads) {
+      child.get();
+    }
   } catch (...) {
     throw;
   }
@@ -1013,6 +1028,9 @@ void ColumnarResults::compactAndCopyEntriesWithoutTargetSkipping(
     for (auto& child : compaction_threads) {
       child.wait();
     }
+    for (auto& child : compaction_threads) {
+      child.get();
+    }
   } catch (...) {
     throw;
   }
-- 
2.43.0


From 11b07d0a95f93b10bb3b20e64d08e496821aac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:50 +0000
Subject: [PATCH 22/32] fix: not giving --use-cost-model keeps the cost model
 setting of the configuration passed in

---
 omniscidb/ConfigBuilder/ConfigBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/ConfigBuilder/ConfigBuilder.cpp b/omniscidb/ConfigBuilder/ConfigBuilder.cpp
index 3bf6b9c..7c87f0f 100644
--- a/omniscidb/ConfigBuilder/ConfigBuilder.cpp
+++ b/omniscidb/ConfigBuilder/ConfigBuilder.cpp
@@ -409,7 +409,8 @@ bool ConfigBuilder::parseCommandLineArgs(int argc,
 
   opt_desc.add_options()(
       "use-cost-model",
-      po::value<bool>(&config_->exec.enable_cost_model)->default_value(false),
+      po::value<bool>(&config_->exec.enable_cost_model)
+          ->default_value(config_->exec.enable_cost_model),
       "Use Cost Model for query execution when it is possible.");
 
   // opts.filter_pushdown
-- 
2.43.0


From 8b606522aafd9c568defbc49b555f268c40f16cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:56 +0000
Subject: [PATCH 23/32] fix: sqlite statements, transactions and connections
 are released when an operation fails

---
 omniscidb/SqliteConnector/SqliteConnector.cpp | 35 +++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/omniscidb/SqliteConnector/SqliteConnector.cpp b/omniscidb/SqliteConnector/SqliteConnector.cpp
index 66c8173..7c1e898 100644
--- a/omniscidb/SqliteConnector/SqliteConnector.cpp
+++ b/omniscidb/SqliteConnector/SqliteConnector.cpp
@@ -23,6 +23,7 @@
 #include "SqliteConnector.h"
 
 #include <iostream>
+#include <memory>
 
 #include "Logger/Logger.h"
 
@@ -31,6 +32,30 @@ using std::endl;
 using std::runtime_error;
 using std::string;
 
+namespace {
+
+struct StatementFinalizer {
+  void operator()(sqlite3_stmt* stmt) const { sqlite3_finalize(stmt); }
+};
+
+// Owns a prepared statement, so that it is finalized on errors too.
+using StatementOwner = std::unique_ptr<sqlite3_stmt, StatementFinalizer>;
+
+// Rolls back the transaction it was created in unless that was committed.
+struct TransactionGuard {
+  explicit TransactionGuard(sqlite3* db) : db(db) {}
+  ~TransactionGuard() {
+    if (!committed) {
+      sqlite3_exec(db, "ROLLBACK TRANSACTION", nullptr, nullptr, nullptr);
+    }
+  }
+
+  sqlite3* db;
+  bool committed{false};
+};
+
+}  // namespace
+
 SqliteConnector::SqliteConnector(const string& dbName, const string& dir)
     : dbName_(dbName) {
   string connectString(dir);
@@ -40,6 +65,8 @@ SqliteConnector::SqliteConnector(const string& dbName, const string& dir)
   connectString += dbName;
   int returnCode = sqlite3_open(connectString.c_str(), &db_);
   if (returnCode != SQLITE_OK) {
+    // The handle has to be closed even if the database could not be opened.
+    std::unique_ptr<sqlite3, int (*)(sqlite3*)> handle_owner(db_, sqlite3_close);
     throwError();
   }
 }
@@ -86,6 +113,7 @@ void SqliteConnector::query_with_text_params(const std::string& queryString,
   if (returnCode != SQLITE_OK) {
     throwError();
   }
+  StatementOwner stmt_owner(stmt);
 
   int num_params = 1;
   for (auto text_param : text_params) {
@@ -131,8 +159,6 @@ void SqliteConnector::query_with_text_params(const std::string& queryString,
       results_[c].emplace_back(NullableResult{col_text, is_null});
     }
   } while (1 == 1);  // Loop control in break statement above
-
-  sqlite3_finalize(stmt);
 }
 
 void SqliteConnector::query_with_text_params(
@@ -167,6 +193,7 @@ void SqliteConnector::batch_insert(const std::string& table_name,
   paramertized_query += "?)";
 
   query("BEGIN TRANSACTION");
+  TransactionGuard transaction(db_);
 
   sqlite3_stmt* stmt;
   int returnCode =
@@ -174,6 +201,7 @@ void SqliteConnector::batch_insert(const std::string& table_name,
   if (returnCode != SQLITE_OK) {
     throwError();
   }
+  StatementOwner stmt_owner(stmt);
 
   for (size_t r = 0; r < num_rows; ++r) {
     const auto& row_insert_vals = insert_vals[r];
@@ -194,6 +222,7 @@ void SqliteConnector::batch_insert(const std::string& table_name,
     }
     sqlite3_reset(stmt);
   }
-  sqlite3_finalize(stmt);
+  stmt_owner.reset();
   query("END TRANSACTION");
+  transaction.committed = true;
 }
-- 
2.43.0


From 14138c8879fa7bf5983e4bf5e89bb10f4254139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:04 +0000
Subject: [PATCH 24/32] fix: hashing a dictionary-encoded constant does not
 dereference its id as a string pointer

---
 omniscidb/IR/Datum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index ba04a69..63f1fcd 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -405,6 +405,7 @@ size_t hash(Datum datum, const hdk::ir::Type* type) {
       break;
     case hdk::ir::Type::kExtDictionary:
       boost::hash_combine(res, datum.intval);
+      break;
     case hdk::ir::Type::kVarChar:
     case hdk::ir::Type::kText:
       if (datum.stringval) {
-- 
2.43.0


From ad7efd5f9d1ada215e3276fd740abcda20f4ae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:04 +0000
Subject: [PATCH 25/32] fix: statistics of narrow dictionary columns are read
 back as the unsigned ids they were stored as

---
 omniscidb/IR/Datum.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index 63f1fcd..cfad308 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -519,7 +519,6 @@ int64_t extract_int_type_from_datum(const Datum datum, const hdk::ir::Type* type
       return datum.boolval;
     case hdk::ir::Type::kInteger:
     case hdk::ir::Type::kDecimal:
-    case hdk::ir::Type::kExtDictionary:
       switch (type->size()) {
         case 1:
           return datum.tinyintval;
@@ -532,6 +531,9 @@ int64_t extract_int_type_from_datum(const Datum datum, const hdk::ir::Type* type
         default:
           abort();
       }
+    case hdk::ir::Type::kExtDictionary:
+      // Narrow dictionary ids are unsigned and are kept as 32-bit integers.
+      return datum.intval;
     case hdk::ir::Type::kDate:
     case hdk::ir::Type::kTime:
     case hdk::ir::Type::kTimestamp:
-- 
2.43.0


From a4da0974b6f90aa06b0b5a6cbba3a21a58dae6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:16 +0000
Subject: [PATCH 26/32] fix: array encoders keep the statistics they were reset
 to

resetChunkStats(stats) left 'initialized' unset, so the first array appended
afterwards replaced the given minimum and maximum instead of widening them.
---
 omniscidb/DataMgr/ArrayNoneEncoder.h            | 1 +
 omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/omniscidb/DataMgr/ArrayNoneEncoder.h b/omniscidb/DataMgr/ArrayNoneEncoder.h
index 040f3bc..e84872e 100644
--- a/omniscidb/DataMgr/ArrayNoneEncoder.h
+++ b/omniscidb/DataMgr/ArrayNoneEncoder.h
@@ -141,6 +141,7 @@ class ArrayNoneEncoder : public Encoder {
     elem_min = stats.min;
     elem_max = stats.max;
     has_nulls = stats.has_nulls;
+    initialized = true;
     return true;
   }
 
diff --git a/omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h b/omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h
index 0002472..af83a9f 100644
--- a/omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h
+++ b/omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h
@@ -191,6 +191,7 @@ class FixedLengthArrayNoneEncoder : public Encoder {
     elem_min = stats.min;
     elem_max = stats.max;
     has_nulls = stats.has_nulls;
+    initialized = true;
     return true;
   }
 
-- 
2.43.0


From 701ebaa119715b4a0ba685bf18daf12895e1d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:08 +0000
Subject: [PATCH 27/32] fix: NOT of a NULL boolean literal is NULL

BuilderExpr::logicalNot folded the literal's null sentinel, so NOT NULL
became FALSE.
---
 omniscidb/QueryBuilder/QueryBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omniscidb/QueryBuilder/QueryBuilder.cpp b/omniscidb/QueryBuilder/QueryBuilder.cpp
index bdf2b45..c2bf21c 100644
--- a/omniscidb/QueryBuilder/QueryBuilder.cpp
+++ b/omniscidb/QueryBuilder/QueryBuilder.cpp
@@ -1024,6 +1024,9 @@ BuilderExpr BuilderExpr::logicalNot() const {
     throw InvalidQueryError("Only boolean expressions are allowed for NOT operation.");
   }
   if (expr_->is<Constant>()) {
+    if (expr_->as<Constant>()->isNull()) {
+      return *this;
+    }
     return builder_->cst(!expr_->as<Constant>()->intVal(), expr_->type());
   }
   auto uoper = makeExpr<UOper>(builder_->ctx_.boolean(expr_->type()->nullable()),
-- 
2.43.0


From 94340e915f0f6a94a9bcb9921801c69a5b91fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:08 +0000
Subject: [PATCH 28/32] fix: minus a NULL literal is NULL

BuilderExpr::uminus negated the literal's null sentinel and made a
non-null literal of it.
---
 omniscidb/QueryBuilder/QueryBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omniscidb/QueryBuilder/QueryBuilder.cpp b/omniscidb/QueryBuilder/QueryBuilder.cpp
index c2bf21c..981ae8a 100644
--- a/omniscidb/QueryBuilder/QueryBuilder.cpp
+++ b/omniscidb/QueryBuilder/QueryBuilder.cpp
@@ -1042,6 +1042,9 @@ BuilderExpr BuilderExpr::uminus() const {
   }
   if (expr_->is<Constant>()) {
     auto cst_expr = expr_->as<Constant>();
+    if (cst_expr->isNull()) {
+      return *this;
+    }
     if (cst_expr->type()->isInteger()) {
       return builder_->cst(-cst_expr->intVal(), cst_expr->type());
     } else if (cst_expr->type()->isFloatingPoint()) {
-- 
2.43.0


From 331497b0486c2b996bdaca0b8536e296a9694989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:08 +0000
Subject: [PATCH 29/32] fix: a second orderBy does not repeat the window
 function's order keys

The existing order keys were copied and then inserted again, so the keys
no longer matched the collation.
---
 omniscidb/QueryBuilder/QueryBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryBuilder/QueryBuilder.cpp b/omniscidb/QueryBuilder/QueryBuilder.cpp
index 981ae8a..dbcecc9 100644
--- a/omniscidb/QueryBuilder/QueryBuilder.cpp
+++ b/omniscidb/QueryBuilder/QueryBuilder.cpp
@@ -1814,7 +1814,7 @@ BuilderExpr BuilderExpr::orderBy(const std::vector<BuilderOrderByKey>& keys) con
     }
   }
 
-  ExprPtrVector new_order_keys = wnd_fn->orderKeys();
+  ExprPtrVector new_order_keys;
   new_order_keys.reserve(wnd_fn->orderKeys().size() + keys.size());
   new_order_keys.insert(
       new_order_keys.end(), wnd_fn->orderKeys().begin(), wnd_fn->orderKeys().end());
-- 
2.43.0


From 7b08cc41b50452538412e21e456ebb77b97a7527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:08 +0000
Subject: [PATCH 30/32] fix: COUNT(DISTINCT) is not turned into a COUNT window
 function

over() dropped the DISTINCT of a count aggregate. There is no such window
function, so report the query as invalid.
---
 omniscidb/QueryBuilder/QueryBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omniscidb/QueryBuilder/QueryBuilder.cpp b/omniscidb/QueryBuilder/QueryBuilder.cpp
index dbcecc9..c7cf36d 100644
--- a/omniscidb/QueryBuilder/QueryBuilder.cpp
+++ b/omniscidb/QueryBuilder/QueryBuilder.cpp
@@ -413,6 +413,9 @@ std::shared_ptr<const WindowFunction> checkOrGetWindowFn(ExprPtr expr) {
   if (auto agg = expr->as<AggExpr>()) {
     switch (agg->aggType()) {
       case AggType::kCount:
+        if (agg->isDistinct()) {
+          break;
+        }
         if (agg->arg()) {
           return std::shared_ptr<const WindowFunction>(new WindowFunction(
               agg->type(), WindowFunctionKind::Count, {agg->argShared()}, {}, {}, {}));
-- 
2.43.0


From 19d1df72088151de8ff58d67b65ce85420135dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:08 +0000
Subject: [PATCH 31/32] fix: round a double to the scale of a decimal literal

The scaled value was truncated, so 0.29 as DECIMAL(10, 2) became 0.28.
---
 omniscidb/QueryBuilder/QueryBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryBuilder/QueryBuilder.cpp b/omniscidb/QueryBuilder/QueryBuilder.cpp
index c7cf36d..863ebd0 100644
--- a/omniscidb/QueryBuilder/QueryBuilder.cpp
+++ b/omniscidb/QueryBuilder/QueryBuilder.cpp
@@ -3046,7 +3046,7 @@ BuilderExpr QueryBuilder::cst(double val, const Type* type) const {
     d.doubleval = val;
   } else if (type->isDecimal()) {
     d.bigintval =
-        static_cast<int64_t>(val * exp_to_scale(type->as<DecimalType>()->scale()));
+        std::llround(val * exp_to_scale(type->as<DecimalType>()->scale()));
   } else {
     throw InvalidQueryError() << "Cannot create a literal from a double value for type: "
                               << type->toString();
-- 
2.43.0


From c8d5b98bd3d8f71f79659f0891df7c1773e5ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:08 +0000
Subject: [PATCH 32/32] fix: report a missing aggregate parameter instead of
 dereferencing null

agg() with a quantile, topK or corr kind and no parameter crashed.
---
 omniscidb/QueryBuilder/QueryBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omniscidb/QueryBuilder/QueryBuilder.cpp b/omniscidb/QueryBuilder/QueryBuilder.cpp
index 863ebd0..56455f6 100644
--- a/omniscidb/QueryBuilder/QueryBuilder.cpp
+++ b/omniscidb/QueryBuilder/QueryBuilder.cpp
@@ -806,6 +806,11 @@ BuilderExpr BuilderExpr::agg(AggType agg_kind,
                                  "quantile and corr only but provided for "
                               << agg_kind;
   }
+  if (!arg.expr() &&
+      (agg_kind == AggType::kApproxQuantile || agg_kind == AggType::kCorr ||
+       agg_kind == AggType::kTopK || agg_kind == AggType::kQuantile)) {
+    throw InvalidQueryError() << "Missing argument for " << agg_kind << " aggregate.";
+  }
   if (agg_kind == AggType::kApproxQuantile || agg_kind == AggType::kQuantile) {
     if (!arg.expr()->is<Constant>() || !arg.type()->isFloatingPoint()) {
       throw InvalidQueryError() << "Expected fp constant argumnt for quantile. Provided: "
-- 
2.43.0

