From ec859ffc411cc87e14a8b4936e7c14dbfd7eda10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 01/17] fix: declare header-defined functions inline and
 include what headers use

---
 include/bitvector.hpp    | 10 +++----
 include/config.hpp       | 12 ++++----
 include/hash.hpp         |  3 ++
 include/label_vector.hpp | 14 +++++-----
 include/louds_dense.hpp  | 52 +++++++++++++++++-----------------
 include/louds_sparse.hpp | 60 ++++++++++++++++++++--------------------
 include/suffix.hpp       |  8 +++---
 include/surf.hpp         | 54 ++++++++++++++++++------------------
 include/surf_builder.hpp | 24 ++++++++--------
 9 files changed, 121 insertions(+), 116 deletions(-)

diff --git a/include/bitvector.hpp b/include/bitvector.hpp
index 7616ac9..4e68f0c 100644
--- a/include/bitvector.hpp
+++ b/include/bitvector.hpp
@@ -67,14 +67,14 @@ protected:
     word_t* bits_;
 };
 
-bool Bitvector::readBit (const position_t pos) const {
+inline bool Bitvector::readBit (const position_t pos) const {
     assert(pos <= num_bits_);
     position_t word_id = pos / kWordSize;
     position_t offset = pos & (kWordSize - 1);
     return bits_[word_id] & (kMsbMask >> offset);
 }
 
-position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
+inline position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
     assert(pos < num_bits_);
     position_t distance = 1;
 
@@ -101,7 +101,7 @@ position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
     return distance;
 }
 
-position_t Bitvector::distanceToPrevSetBit (const position_t pos) const {
+inline position_t Bitvector::distanceToPrevSetBit (const position_t pos) const {
     assert(pos <= num_bits_);
     if (pos == 0) return 0;
     position_t distance = 1;
@@ -129,7 +129,7 @@ position_t Bitvector::distanceToPrevSetBit (const position_t pos) const {
     return distance;
 }
 
-position_t Bitvector::totalNumBits(const std::vector<position_t>& num_bits_per_level, 
+inline position_t Bitvector::totalNumBits(const std::vector<position_t>& num_bits_per_level, 
 			     const level_t start_level, 
 			     const level_t end_level/* non-inclusive */) {
     position_t num_bits = 0;
@@ -138,7 +138,7 @@ position_t Bitvector::totalNumBits(const std::vector<position_t>& num_bits_per_l
     return num_bits;
 }
 
-void Bitvector::concatenateBitvectors(const std::vector<std::vector<word_t> >& bitvector_per_level, 
+inline void Bitvector::concatenateBitvectors(const std::vector<std::vector<word_t> >& bitvector_per_level, 
 				      const std::vector<position_t>& num_bits_per_level, 
 				      const level_t start_level, 
 				      const level_t end_level/* non-inclusive */) {
diff --git a/include/config.hpp b/include/config.hpp
index be4c276..1d1a632 100644
--- a/include/config.hpp
+++ b/include/config.hpp
@@ -4,6 +4,8 @@
 #include <stdint.h>
 #include <string.h>
 
+#include <string>
+
 namespace surf {
 
 using level_t = uint32_t;
@@ -34,24 +36,24 @@ enum SuffixType {
     kMixed = 3
 };
 
-void align(char*& ptr) {
+inline void align(char*& ptr) {
     ptr = (char*)(((uint64_t)ptr + 7) & ~((uint64_t)7));
 }
 
-void sizeAlign(position_t& size) {
+inline void sizeAlign(position_t& size) {
     size = (size + 7) & ~((position_t)7);
 }
 
-void sizeAlign(uint64_t& size) {
+inline void sizeAlign(uint64_t& size) {
     size = (size + 7) & ~((uint64_t)7);
 }
 
-std::string uint64ToString(const uint64_t word) {
+inline std::string uint64ToString(const uint64_t word) {
     uint64_t endian_swapped_word = __builtin_bswap64(word);
     return std::string(reinterpret_cast<const char*>(&endian_swapped_word), 8);
 }
 
-uint64_t stringToUint64(const std::string& str_word) {
+inline uint64_t stringToUint64(const std::string& str_word) {
     uint64_t int_word = 0;
     memcpy(reinterpret_cast<char*>(&int_word), str_word.data(), 8);
     return __builtin_bswap64(int_word);
diff --git a/include/hash.hpp b/include/hash.hpp
index a43b865..c4f225c 100644
--- a/include/hash.hpp
+++ b/include/hash.hpp
@@ -1,6 +1,9 @@
 #ifndef HASH_H_
 #define HASH_H_
 
+#include <stdint.h>
+#include <string.h>
+
 #include <string>
 
 namespace surf {
diff --git a/include/label_vector.hpp b/include/label_vector.hpp
index 9582a46..fa31658 100644
--- a/include/label_vector.hpp
+++ b/include/label_vector.hpp
@@ -104,7 +104,7 @@ private:
     label_t* labels_;
 };
 
-bool LabelVector::search(const label_t target, position_t& pos, position_t search_len) const {
+inline bool LabelVector::search(const label_t target, position_t& pos, position_t search_len) const {
     //skip terminator label
     if ((search_len > 1) && (labels_[pos] == kTerminator)) {
 	pos++;
@@ -119,7 +119,7 @@ bool LabelVector::search(const label_t target, position_t& pos, position_t searc
 	return simdSearch(target, pos, search_len);
 }
 
-bool LabelVector::searchGreaterThan(const label_t target, position_t& pos, position_t search_len) const {
+inline bool LabelVector::searchGreaterThan(const label_t target, position_t& pos, position_t search_len) const {
     //skip terminator label
     if ((search_len > 1) && (labels_[pos] == kTerminator)) {
 	pos++;
@@ -132,7 +132,7 @@ bool LabelVector::searchGreaterThan(const label_t target, position_t& pos, posit
 	return binarySearchGreaterThan(target, pos, search_len);
 }
 
-bool LabelVector::binarySearch(const label_t target, position_t& pos, const position_t search_len) const {
+inline bool LabelVector::binarySearch(const label_t target, position_t& pos, const position_t search_len) const {
     position_t l = pos;
     position_t r = pos + search_len;
     while (l < r) {
@@ -149,7 +149,7 @@ bool LabelVector::binarySearch(const label_t target, position_t& pos, const posi
     return false;
 }
 
-bool LabelVector::simdSearch(const label_t target, position_t& pos, const position_t search_len) const {
+inline bool LabelVector::simdSearch(const label_t target, position_t& pos, const position_t search_len) const {
     position_t num_labels_searched = 0;
     position_t num_labels_left = search_len;
     while ((num_labels_left >> 4) > 0) {
@@ -180,7 +180,7 @@ bool LabelVector::simdSearch(const label_t target, position_t& pos, const positi
     return false;
 }
 
-bool LabelVector::linearSearch(const label_t target, position_t&  pos, const position_t search_len) const {
+inline bool LabelVector::linearSearch(const label_t target, position_t&  pos, const position_t search_len) const {
     for (position_t i = 0; i < search_len; i++) {
 	if (target == labels_[pos + i]) {
 	    pos += i;
@@ -190,7 +190,7 @@ bool LabelVector::linearSearch(const label_t target, position_t&  pos, const pos
     return false;
 }
 
-bool LabelVector::binarySearchGreaterThan(const label_t target, position_t& pos, const position_t search_len) const {
+inline bool LabelVector::binarySearchGreaterThan(const label_t target, position_t& pos, const position_t search_len) const {
     position_t l = pos;
     position_t r = pos + search_len;
     while (l < r) {
@@ -215,7 +215,7 @@ bool LabelVector::binarySearchGreaterThan(const label_t target, position_t& pos,
     return false;
 }
 
-bool LabelVector::linearSearchGreaterThan(const label_t target, position_t& pos, const position_t search_len) const {
+inline bool LabelVector::linearSearchGreaterThan(const label_t target, position_t& pos, const position_t search_len) const {
     for (position_t i = 0; i < search_len; i++) {
 	if (labels_[pos + i] > target) {
 	    pos += i;
diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 19c2b52..f5be0b3 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -163,7 +163,7 @@ private:
 };
 
 
-LoudsDense::LoudsDense(const SuRFBuilder* builder) {
+inline LoudsDense::LoudsDense(const SuRFBuilder* builder) {
     height_ = builder->getSparseStartLevel();
     std::vector<position_t> num_bits_per_level;
     for (level_t level = 0; level < height_; level++)
@@ -201,7 +201,7 @@ LoudsDense::LoudsDense(const SuRFBuilder* builder) {
     }
 }
 
-bool LoudsDense::lookupKey(const std::string& key, position_t& out_node_num) const {
+inline bool LoudsDense::lookupKey(const std::string& key, position_t& out_node_num) const {
     position_t node_num = 0;
     position_t pos = 0;
     for (level_t level = 0; level < height_; level++) {
@@ -229,7 +229,7 @@ bool LoudsDense::lookupKey(const std::string& key, position_t& out_node_num) con
     return true;
 }
 
-bool LoudsDense::moveToKeyGreaterThan(const std::string& key, 
+inline bool LoudsDense::moveToKeyGreaterThan(const std::string& key, 
 				      const bool inclusive, LoudsDense::Iter& iter) const {
     position_t node_num = 0;
     position_t pos = 0;
@@ -268,7 +268,7 @@ bool LoudsDense::moveToKeyGreaterThan(const std::string& key,
     return true;
 }
 
-void LoudsDense::extendPosList(std::vector<position_t>& pos_list,
+inline void LoudsDense::extendPosList(std::vector<position_t>& pos_list,
 			       position_t& out_node_num) const {
     position_t node_num = 0;
     position_t pos = pos_list[pos_list.size() - 1];
@@ -295,7 +295,7 @@ void LoudsDense::extendPosList(std::vector<position_t>& pos_list,
     }
 }
 
-uint64_t LoudsDense::approxCount(const LoudsDense::Iter* iter_left,
+inline uint64_t LoudsDense::approxCount(const LoudsDense::Iter* iter_left,
 				 const LoudsDense::Iter* iter_right,
 				 position_t& out_node_num_left,
 				 position_t& out_node_num_right) const {
@@ -362,7 +362,7 @@ uint64_t LoudsDense::approxCount(const LoudsDense::Iter* iter_left,
     return count;
 }
 
-uint64_t LoudsDense::serializedSize() const {
+inline uint64_t LoudsDense::serializedSize() const {
     uint64_t size = sizeof(height_)
 	+ (sizeof(position_t) * height_);
     sizeAlign(size);
@@ -374,7 +374,7 @@ uint64_t LoudsDense::serializedSize() const {
     return size;
 }
 
-uint64_t LoudsDense::getMemoryUsage() const {
+inline uint64_t LoudsDense::getMemoryUsage() const {
     return (sizeof(LoudsDense)
 	    + label_bitmaps_->size()
 	    + child_indicator_bitmaps_->size()
@@ -382,11 +382,11 @@ uint64_t LoudsDense::getMemoryUsage() const {
 	    + suffixes_->size());
 }
 
-position_t LoudsDense::getChildNodeNum(const position_t pos) const {
+inline position_t LoudsDense::getChildNodeNum(const position_t pos) const {
     return child_indicator_bitmaps_->rank(pos);
 }
 
-position_t LoudsDense::getSuffixPos(const position_t pos, const bool is_prefix_key) const {
+inline position_t LoudsDense::getSuffixPos(const position_t pos, const bool is_prefix_key) const {
     position_t node_num = pos / kNodeFanout;
     position_t suffix_pos = (label_bitmaps_->rank(pos)
 			     - child_indicator_bitmaps_->rank(pos)
@@ -397,11 +397,11 @@ position_t LoudsDense::getSuffixPos(const position_t pos, const bool is_prefix_k
     return suffix_pos;
 }
 
-position_t LoudsDense::getNextPos(const position_t pos) const {
+inline position_t LoudsDense::getNextPos(const position_t pos) const {
     return pos + label_bitmaps_->distanceToNextSetBit(pos);
 }
 
-position_t LoudsDense::getPrevPos(const position_t pos, bool* is_out_of_bound) const {
+inline position_t LoudsDense::getPrevPos(const position_t pos, bool* is_out_of_bound) const {
     position_t distance = label_bitmaps_->distanceToPrevSetBit(pos);
     if (pos <= distance) {
 	*is_out_of_bound = true;
@@ -411,7 +411,7 @@ position_t LoudsDense::getPrevPos(const position_t pos, bool* is_out_of_bound) c
     return (pos - distance);
 }
 
-bool LoudsDense::compareSuffixGreaterThan(const position_t pos, const std::string& key, 
+inline bool LoudsDense::compareSuffixGreaterThan(const position_t pos, const std::string& key, 
 					  const level_t level, const bool inclusive, 
 					  LoudsDense::Iter& iter) const {
     position_t suffix_pos = getSuffixPos(pos, false);
@@ -427,13 +427,13 @@ bool LoudsDense::compareSuffixGreaterThan(const position_t pos, const std::strin
 
 //============================================================================
 
-void LoudsDense::Iter::clear() {
+inline void LoudsDense::Iter::clear() {
     is_valid_ = false;
     key_len_ = 0;
     is_at_prefix_key_ = false;
 }
 
-int LoudsDense::Iter::compare(const std::string& key) const {
+inline int LoudsDense::Iter::compare(const std::string& key) const {
     if (is_at_prefix_key_ && (key_len_ - 1) < key.length())
 	return -1;
     std::string iter_key = getKey();
@@ -447,7 +447,7 @@ int LoudsDense::Iter::compare(const std::string& key) const {
     return compare;
 }
 
-std::string LoudsDense::Iter::getKey() const {
+inline std::string LoudsDense::Iter::getKey() const {
     if (!is_valid_)
 	return std::string();
     level_t len = key_len_;
@@ -456,7 +456,7 @@ std::string LoudsDense::Iter::getKey() const {
     return std::string((const char*)key_.data(), (size_t)len);
 }
 
-int LoudsDense::Iter::getSuffix(word_t* suffix) const {
+inline int LoudsDense::Iter::getSuffix(word_t* suffix) const {
     if (isComplete()
         && ((trie_->suffixes_->getType() == kReal) || (trie_->suffixes_->getType() == kMixed))) {
 	position_t suffix_pos = trie_->getSuffixPos(pos_in_trie_[key_len_ - 1], is_at_prefix_key_);
@@ -467,7 +467,7 @@ int LoudsDense::Iter::getSuffix(word_t* suffix) const {
     return 0;
 }
 
-std::string LoudsDense::Iter::getKeyWithSuffix(unsigned* bitlen) const {
+inline std::string LoudsDense::Iter::getKeyWithSuffix(unsigned* bitlen) const {
     std::string iter_key = getKey();
     if (isComplete()
         && ((trie_->suffixes_->getType() == kReal) || (trie_->suffixes_->getType() == kMixed))) {
@@ -490,20 +490,20 @@ std::string LoudsDense::Iter::getKeyWithSuffix(unsigned* bitlen) const {
     return iter_key;
 }
 
-void LoudsDense::Iter::append(position_t pos) {
+inline void LoudsDense::Iter::append(position_t pos) {
     assert(key_len_ < key_.size());
     key_[key_len_] = (label_t)(pos % kNodeFanout);
     pos_in_trie_[key_len_] = pos;
     key_len_++;
 }
 
-void LoudsDense::Iter::set(level_t level, position_t pos) {
+inline void LoudsDense::Iter::set(level_t level, position_t pos) {
     assert(level < key_.size());
     key_[level] = (label_t)(pos % kNodeFanout);
     pos_in_trie_[level] = pos;
 }
 
-void LoudsDense::Iter::setFlags(const bool is_valid,
+inline void LoudsDense::Iter::setFlags(const bool is_valid,
 				const bool is_search_complete, 
 				const bool is_move_left_complete,
 				const bool is_move_right_complete) {
@@ -513,7 +513,7 @@ void LoudsDense::Iter::setFlags(const bool is_valid,
     is_move_right_complete_ = is_move_right_complete;
 }
 
-void LoudsDense::Iter::setToFirstLabelInRoot() {
+inline void LoudsDense::Iter::setToFirstLabelInRoot() {
     if (trie_->label_bitmaps_->readBit(0)) {
 	pos_in_trie_[0] = 0;
 	key_[0] = (label_t)0;
@@ -524,14 +524,14 @@ void LoudsDense::Iter::setToFirstLabelInRoot() {
     key_len_++;
 }
 
-void LoudsDense::Iter::setToLastLabelInRoot() {
+inline void LoudsDense::Iter::setToLastLabelInRoot() {
     bool is_out_of_bound;
     pos_in_trie_[0] = trie_->getPrevPos(kNodeFanout, &is_out_of_bound);
     key_[0] = (label_t)pos_in_trie_[0];
     key_len_++;
 }
 
-void LoudsDense::Iter::moveToLeftMostKey() {
+inline void LoudsDense::Iter::moveToLeftMostKey() {
     assert(key_len_ > 0);
     level_t level = key_len_ - 1;
     position_t pos = pos_in_trie_[level];
@@ -564,7 +564,7 @@ void LoudsDense::Iter::moveToLeftMostKey() {
     setFlags(true, true, false, true);
 }
 
-void LoudsDense::Iter::moveToRightMostKey() {
+inline void LoudsDense::Iter::moveToRightMostKey() {
     assert(key_len_ > 0);
     level_t level = key_len_ - 1;
     position_t pos = pos_in_trie_[level];
@@ -594,7 +594,7 @@ void LoudsDense::Iter::moveToRightMostKey() {
     setFlags(true, true, true, false);
 }
 
-void LoudsDense::Iter::operator ++(int) {
+inline void LoudsDense::Iter::operator ++(int) {
     assert(key_len_ > 0);
     if (is_at_prefix_key_) {
 	is_at_prefix_key_ = false;
@@ -616,7 +616,7 @@ void LoudsDense::Iter::operator ++(int) {
     return moveToLeftMostKey();
 }
 
-void LoudsDense::Iter::operator --(int) {
+inline void LoudsDense::Iter::operator --(int) {
     assert(key_len_ > 0);
     if (is_at_prefix_key_) {
 	is_at_prefix_key_ = false;
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index adff889..e70e35b 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -176,7 +176,7 @@ private:
 };
 
 
-LoudsSparse::LoudsSparse(const SuRFBuilder* builder) {
+inline LoudsSparse::LoudsSparse(const SuRFBuilder* builder) {
     height_ = builder->getLabels().size();
     start_level_ = builder->getSparseStartLevel();
 
@@ -226,7 +226,7 @@ LoudsSparse::LoudsSparse(const SuRFBuilder* builder) {
     }
 }
 
-bool LoudsSparse::lookupKey(const std::string& key, const position_t in_node_num) const {
+inline bool LoudsSparse::lookupKey(const std::string& key, const position_t in_node_num) const {
     position_t node_num = in_node_num;
     position_t pos = getFirstLabelPos(node_num);
     level_t level = 0;
@@ -248,7 +248,7 @@ bool LoudsSparse::lookupKey(const std::string& key, const position_t in_node_num
     return false;
 }
 
-bool LoudsSparse::moveToKeyGreaterThan(const std::string& key, 
+inline bool LoudsSparse::moveToKeyGreaterThan(const std::string& key, 
 				       const bool inclusive, LoudsSparse::Iter& iter) const {
     position_t node_num = iter.getStartNodeNum();
     position_t pos = getFirstLabelPos(node_num);
@@ -293,7 +293,7 @@ bool LoudsSparse::moveToKeyGreaterThan(const std::string& key,
     return true;
 }
 
-position_t LoudsSparse::appendToPosList(std::vector<position_t>& pos_list,
+inline position_t LoudsSparse::appendToPosList(std::vector<position_t>& pos_list,
 					const position_t node_num,
 					const level_t level,
 					const bool isLeft, bool& done) const {
@@ -312,7 +312,7 @@ position_t LoudsSparse::appendToPosList(std::vector<position_t>& pos_list,
     return pos;
 }
 
-void LoudsSparse::extendPosList(std::vector<position_t>& left_pos_list,
+inline void LoudsSparse::extendPosList(std::vector<position_t>& left_pos_list,
 				std::vector<position_t>& right_pos_list,
 				const position_t left_in_node_num,
 				const position_t right_in_node_num) const {
@@ -352,7 +352,7 @@ void LoudsSparse::extendPosList(std::vector<position_t>& left_pos_list,
     }
 }
 
-uint64_t LoudsSparse::approxCount(const LoudsSparse::Iter* iter_left,
+inline uint64_t LoudsSparse::approxCount(const LoudsSparse::Iter* iter_left,
 				  const LoudsSparse::Iter* iter_right,
 				  const position_t in_node_num_left,
 				  const position_t in_node_num_right) const {
@@ -397,7 +397,7 @@ uint64_t LoudsSparse::approxCount(const LoudsSparse::Iter* iter_left,
     return count;
 }
 
-uint64_t LoudsSparse::serializedSize() const {
+inline uint64_t LoudsSparse::serializedSize() const {
     uint64_t size = sizeof(height_) + sizeof(start_level_)
 	+ sizeof(node_count_dense_) + sizeof(child_count_dense_)
 	+ (sizeof(position_t) * height_);
@@ -410,7 +410,7 @@ uint64_t LoudsSparse::serializedSize() const {
     return size;
 }
 
-uint64_t LoudsSparse::getMemoryUsage() const {
+inline uint64_t LoudsSparse::getMemoryUsage() const {
     return (sizeof(this)
 	    + labels_->size()
 	    + child_indicator_bits_->size()
@@ -418,36 +418,36 @@ uint64_t LoudsSparse::getMemoryUsage() const {
 	    + suffixes_->size());
 }
 
-position_t LoudsSparse::getChildNodeNum(const position_t pos) const {
+inline position_t LoudsSparse::getChildNodeNum(const position_t pos) const {
     return (child_indicator_bits_->rank(pos) + child_count_dense_);
 }
 
-position_t LoudsSparse::getFirstLabelPos(const position_t node_num) const {
+inline position_t LoudsSparse::getFirstLabelPos(const position_t node_num) const {
     return louds_bits_->select(node_num + 1 - node_count_dense_);
 }
 
-position_t LoudsSparse::getLastLabelPos(const position_t node_num) const {
+inline position_t LoudsSparse::getLastLabelPos(const position_t node_num) const {
     position_t next_rank = node_num + 2 - node_count_dense_;
     if (next_rank > louds_bits_->numOnes())
 	return (louds_bits_->numBits() - 1);
     return (louds_bits_->select(next_rank) - 1);
 }
 
-position_t LoudsSparse::getSuffixPos(const position_t pos) const {
+inline position_t LoudsSparse::getSuffixPos(const position_t pos) const {
     return (pos - child_indicator_bits_->rank(pos));
 }
 
-position_t LoudsSparse::nodeSize(const position_t pos) const {
+inline position_t LoudsSparse::nodeSize(const position_t pos) const {
     assert(louds_bits_->readBit(pos));
     return louds_bits_->distanceToNextSetBit(pos);
 }
 
-bool LoudsSparse::isEndofNode(const position_t pos) const {
+inline bool LoudsSparse::isEndofNode(const position_t pos) const {
     return ((pos == louds_bits_->numBits() - 1)
 	    || louds_bits_->readBit(pos + 1));
 }
 
-void LoudsSparse::moveToLeftInNextSubtrie(position_t pos, const position_t node_size, 
+inline void LoudsSparse::moveToLeftInNextSubtrie(position_t pos, const position_t node_size, 
 					  const label_t label, LoudsSparse::Iter& iter) const {
     // if no label is greater than key[level] in this node
     if (!labels_->searchGreaterThan(label, pos, node_size)) {
@@ -459,7 +459,7 @@ void LoudsSparse::moveToLeftInNextSubtrie(position_t pos, const position_t node_
     }
 }
 
-bool LoudsSparse::compareSuffixGreaterThan(const position_t pos, const std::string& key, 
+inline bool LoudsSparse::compareSuffixGreaterThan(const position_t pos, const std::string& key, 
 					   const level_t level, const bool inclusive, 
 					   LoudsSparse::Iter& iter) const {
     position_t suffix_pos = getSuffixPos(pos);
@@ -474,13 +474,13 @@ bool LoudsSparse::compareSuffixGreaterThan(const position_t pos, const std::stri
 
 //============================================================================
 
-void LoudsSparse::Iter::clear() {
+inline void LoudsSparse::Iter::clear() {
     is_valid_ = false;
     key_len_ = 0;
     is_at_terminator_ = false;
 }
 
-int LoudsSparse::Iter::compare(const std::string& key) const {
+inline int LoudsSparse::Iter::compare(const std::string& key) const {
     if (is_at_terminator_ && (key_len_ - 1) < (key.length() - start_level_))
 	return -1;
     std::string iter_key = getKey();
@@ -493,7 +493,7 @@ int LoudsSparse::Iter::compare(const std::string& key) const {
     return trie_->suffixes_->compare(suffix_pos, key_sparse, key_len_);
 }
 
-std::string LoudsSparse::Iter::getKey() const {
+inline std::string LoudsSparse::Iter::getKey() const {
     if (!is_valid_)
 	return std::string();
     level_t len = key_len_;
@@ -502,7 +502,7 @@ std::string LoudsSparse::Iter::getKey() const {
     return std::string((const char*)key_.data(), (size_t)len);
 }
 
-int LoudsSparse::Iter::getSuffix(word_t* suffix) const {
+inline int LoudsSparse::Iter::getSuffix(word_t* suffix) const {
     if ((trie_->suffixes_->getType() == kReal) || (trie_->suffixes_->getType() == kMixed)) {
 	position_t suffix_pos = trie_->getSuffixPos(pos_in_trie_[key_len_ - 1]);
 	*suffix = trie_->suffixes_->readReal(suffix_pos);
@@ -512,7 +512,7 @@ int LoudsSparse::Iter::getSuffix(word_t* suffix) const {
     return 0;
 }
 
-std::string LoudsSparse::Iter::getKeyWithSuffix(unsigned* bitlen) const {
+inline std::string LoudsSparse::Iter::getKeyWithSuffix(unsigned* bitlen) const {
     std::string iter_key = getKey();
     if ((trie_->suffixes_->getType() == kReal) || (trie_->suffixes_->getType() == kMixed)) {
 	position_t suffix_pos = trie_->getSuffixPos(pos_in_trie_[key_len_ - 1]);
@@ -534,39 +534,39 @@ std::string LoudsSparse::Iter::getKeyWithSuffix(unsigned* bitlen) const {
     return iter_key;
 }
 
-void LoudsSparse::Iter::append(const position_t pos) {
+inline void LoudsSparse::Iter::append(const position_t pos) {
     assert(key_len_ < key_.size());
     key_[key_len_] = trie_->labels_->read(pos);
     pos_in_trie_[key_len_] = pos;
     key_len_++;
 }
 
-void LoudsSparse::Iter::append(const label_t label, const position_t pos) {
+inline void LoudsSparse::Iter::append(const label_t label, const position_t pos) {
     assert(key_len_ < key_.size());
     key_[key_len_] = label;
     pos_in_trie_[key_len_] = pos;
     key_len_++;
 }
 
-void LoudsSparse::Iter::set(const level_t level, const position_t pos) {
+inline void LoudsSparse::Iter::set(const level_t level, const position_t pos) {
     assert(level < key_.size());
     key_[level] = trie_->labels_->read(pos);
     pos_in_trie_[level] = pos;
 }
 
-void LoudsSparse::Iter::setToFirstLabelInRoot() {
+inline void LoudsSparse::Iter::setToFirstLabelInRoot() {
     assert(start_level_ == 0);
     pos_in_trie_[0] = 0;
     key_[0] = trie_->labels_->read(0);
 }
 
-void LoudsSparse::Iter::setToLastLabelInRoot() {
+inline void LoudsSparse::Iter::setToLastLabelInRoot() {
     assert(start_level_ == 0);
     pos_in_trie_[0] = trie_->getLastLabelPos(0);
     key_[0] = trie_->labels_->read(pos_in_trie_[0]);
 }
 
-void LoudsSparse::Iter::moveToLeftMostKey() {
+inline void LoudsSparse::Iter::moveToLeftMostKey() {
     if (key_len_ == 0) {
 	position_t pos = trie_->getFirstLabelPos(start_node_num_);
 	label_t label = trie_->labels_->read(pos);
@@ -604,7 +604,7 @@ void LoudsSparse::Iter::moveToLeftMostKey() {
     assert(false); // shouldn't reach here
 }
 
-void LoudsSparse::Iter::moveToRightMostKey() {
+inline void LoudsSparse::Iter::moveToRightMostKey() {
     if (key_len_ == 0) {
 	position_t pos = trie_->getFirstLabelPos(start_node_num_);
 	pos = trie_->getLastLabelPos(start_node_num_);
@@ -643,7 +643,7 @@ void LoudsSparse::Iter::moveToRightMostKey() {
     assert(false); // shouldn't reach here
 }
 
-void LoudsSparse::Iter::operator ++(int) {
+inline void LoudsSparse::Iter::operator ++(int) {
     assert(key_len_ > 0);
     is_at_terminator_ = false;
     position_t pos = pos_in_trie_[key_len_ - 1];
@@ -661,7 +661,7 @@ void LoudsSparse::Iter::operator ++(int) {
     return moveToLeftMostKey();
 }
 
-void LoudsSparse::Iter::operator --(int) {
+inline void LoudsSparse::Iter::operator --(int) {
     assert(key_len_ > 0);
     is_at_terminator_ = false;
     position_t pos = pos_in_trie_[key_len_ - 1];
diff --git a/include/suffix.hpp b/include/suffix.hpp
index 01cfee4..c9ba597 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -184,7 +184,7 @@ private:
     level_t real_suffix_len_; // in bits
 };
 
-word_t BitvectorSuffix::read(const position_t idx) const {
+inline word_t BitvectorSuffix::read(const position_t idx) const {
     if (type_ == kNone) 
 	return 0;
 
@@ -201,11 +201,11 @@ word_t BitvectorSuffix::read(const position_t idx) const {
     return ret_word;
 }
 
-word_t BitvectorSuffix::readReal(const position_t idx) const {
+inline word_t BitvectorSuffix::readReal(const position_t idx) const {
     return extractRealSuffix(read(idx), real_suffix_len_);
 }
 
-bool BitvectorSuffix::checkEquality(const position_t idx, 
+inline bool BitvectorSuffix::checkEquality(const position_t idx, 
 				    const std::string& key, const level_t level) const {
     if (type_ == kNone) 
 	return true;
@@ -246,7 +246,7 @@ bool BitvectorSuffix::checkEquality(const position_t idx,
 // 	return 1;
 // }
 
-int BitvectorSuffix::compare(const position_t idx, 
+inline int BitvectorSuffix::compare(const position_t idx, 
 			     const std::string& key, const level_t level) const {
     if ((idx * getSuffixLen() >= num_bits_) || (type_ == kNone) || (type_ == kHash))
 	return kCouldBePositive;
diff --git a/include/surf.hpp b/include/surf.hpp
index 0281cbe..98c14ed 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -127,7 +127,7 @@ private:
     SuRF::Iter iter2_;
 };
 
-void SuRF::create(const std::vector<std::string>& keys, 
+inline void SuRF::create(const std::vector<std::string>& keys, 
 		  const bool include_dense, const uint32_t sparse_dense_ratio,
 		  const SuffixType suffix_type,
                   const level_t hash_suffix_len, const level_t real_suffix_len) {
@@ -140,7 +140,7 @@ void SuRF::create(const std::vector<std::string>& keys,
     delete builder_;
 }
 
-bool SuRF::lookupKey(const std::string& key) const {
+inline bool SuRF::lookupKey(const std::string& key) const {
     position_t connect_node_num = 0;
     if (!louds_dense_->lookupKey(key, connect_node_num))
 	return false;
@@ -149,7 +149,7 @@ bool SuRF::lookupKey(const std::string& key) const {
     return true;
 }
 
-SuRF::Iter SuRF::moveToKeyGreaterThan(const std::string& key, const bool inclusive) const {
+inline SuRF::Iter SuRF::moveToKeyGreaterThan(const std::string& key, const bool inclusive) const {
     SuRF::Iter iter(this);
     iter.could_be_fp_ = louds_dense_->moveToKeyGreaterThan(key, inclusive, iter.dense_iter_);
 
@@ -174,7 +174,7 @@ SuRF::Iter SuRF::moveToKeyGreaterThan(const std::string& key, const bool inclusi
     return iter;
 }
 
-SuRF::Iter SuRF::moveToKeyLessThan(const std::string& key, const bool inclusive) const {
+inline SuRF::Iter SuRF::moveToKeyLessThan(const std::string& key, const bool inclusive) const {
     SuRF::Iter iter = moveToKeyGreaterThan(key, false);
     if (!iter.isValid()) {
 	iter = moveToLast();
@@ -188,7 +188,7 @@ SuRF::Iter SuRF::moveToKeyLessThan(const std::string& key, const bool inclusive)
     return iter;
 }
 
-SuRF::Iter SuRF::moveToFirst() const {
+inline SuRF::Iter SuRF::moveToFirst() const {
     SuRF::Iter iter(this);
     if (louds_dense_->getHeight() > 0) {
 	iter.dense_iter_.setToFirstLabelInRoot();
@@ -204,7 +204,7 @@ SuRF::Iter SuRF::moveToFirst() const {
     return iter;
 }
 
-SuRF::Iter SuRF::moveToLast() const {
+inline SuRF::Iter SuRF::moveToLast() const {
     SuRF::Iter iter(this);
     if (louds_dense_->getHeight() > 0) {
 	iter.dense_iter_.setToLastLabelInRoot();
@@ -220,7 +220,7 @@ SuRF::Iter SuRF::moveToLast() const {
     return iter;
 }
 
-bool SuRF::lookupRange(const std::string& left_key, const bool left_inclusive, 
+inline bool SuRF::lookupRange(const std::string& left_key, const bool left_inclusive, 
 		       const std::string& right_key, const bool right_inclusive) {
     iter_.clear();
     louds_dense_->moveToKeyGreaterThan(left_key, left_inclusive, iter_.dense_iter_);
@@ -247,7 +247,7 @@ bool SuRF::lookupRange(const std::string& left_key, const bool left_inclusive,
 	return (compare < 0);
 }
 
-uint64_t SuRF::approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2) {
+inline uint64_t SuRF::approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2) {
     if (!iter->isValid() || !iter2->isValid()) return 0;
     position_t out_node_num_left = 0, out_node_num_right = 0;
     uint64_t count = louds_dense_->approxCount(&(iter->dense_iter_),
@@ -261,7 +261,7 @@ uint64_t SuRF::approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2) {
     return count;
 }
 
-uint64_t SuRF::approxCount(const std::string& left_key,
+inline uint64_t SuRF::approxCount(const std::string& left_key,
 			   const std::string& right_key) {
     iter_.clear(); iter2_.clear();
     iter_ = moveToKeyGreaterThan(left_key, true);
@@ -273,40 +273,40 @@ uint64_t SuRF::approxCount(const std::string& left_key,
     return approxCount(&iter_, &iter2_);
 }
 
-uint64_t SuRF::serializedSize() const {
+inline uint64_t SuRF::serializedSize() const {
     return (louds_dense_->serializedSize()
 	    + louds_sparse_->serializedSize());
 }
 
-uint64_t SuRF::getMemoryUsage() const {
+inline uint64_t SuRF::getMemoryUsage() const {
     return (sizeof(SuRF) + louds_dense_->getMemoryUsage() + louds_sparse_->getMemoryUsage());
 }
 
-level_t SuRF::getHeight() const {
+inline level_t SuRF::getHeight() const {
     return louds_sparse_->getHeight();
 }
 
-level_t SuRF::getSparseStartLevel() const {
+inline level_t SuRF::getSparseStartLevel() const {
     return louds_sparse_->getStartLevel();
 }
 
 //============================================================================
 
-void SuRF::Iter::clear() {
+inline void SuRF::Iter::clear() {
     dense_iter_.clear();
     sparse_iter_.clear();
 }
 
-bool SuRF::Iter::getFpFlag() const {
+inline bool SuRF::Iter::getFpFlag() const {
     return could_be_fp_;
 }
 
-bool SuRF::Iter::isValid() const {
+inline bool SuRF::Iter::isValid() const {
     return dense_iter_.isValid() 
 	&& (dense_iter_.isComplete() || sparse_iter_.isValid());
 }
 
-int SuRF::Iter::compare(const std::string& key) const {
+inline int SuRF::Iter::compare(const std::string& key) const {
     assert(isValid());
     int dense_compare = dense_iter_.compare(key);
     if (dense_iter_.isComplete() || dense_compare != 0) 
@@ -314,7 +314,7 @@ int SuRF::Iter::compare(const std::string& key) const {
     return sparse_iter_.compare(key);
 }
 
-std::string SuRF::Iter::getKey() const {
+inline std::string SuRF::Iter::getKey() const {
     if (!isValid())
 	return std::string();
     if (dense_iter_.isComplete())
@@ -322,7 +322,7 @@ std::string SuRF::Iter::getKey() const {
     return dense_iter_.getKey() + sparse_iter_.getKey();
 }
 
-int SuRF::Iter::getSuffix(word_t* suffix) const {
+inline int SuRF::Iter::getSuffix(word_t* suffix) const {
     if (!isValid())
 	return 0;
     if (dense_iter_.isComplete())
@@ -330,7 +330,7 @@ int SuRF::Iter::getSuffix(word_t* suffix) const {
     return sparse_iter_.getSuffix(suffix);
 }
 
-std::string SuRF::Iter::getKeyWithSuffix(unsigned* bitlen) const {
+inline std::string SuRF::Iter::getKeyWithSuffix(unsigned* bitlen) const {
     *bitlen = 0;
     if (!isValid())
 	return std::string();
@@ -339,11 +339,11 @@ std::string SuRF::Iter::getKeyWithSuffix(unsigned* bitlen) const {
     return dense_iter_.getKeyWithSuffix(bitlen) + sparse_iter_.getKeyWithSuffix(bitlen);
 }
 
-void SuRF::Iter::passToSparse() {
+inline void SuRF::Iter::passToSparse() {
     sparse_iter_.setStartNodeNum(dense_iter_.getSendOutNodeNum());
 }
 
-bool SuRF::Iter::incrementDenseIter() {
+inline bool SuRF::Iter::incrementDenseIter() {
     if (!dense_iter_.isValid()) 
 	return false;
 
@@ -358,14 +358,14 @@ bool SuRF::Iter::incrementDenseIter() {
     return true;
 }
 
-bool SuRF::Iter::incrementSparseIter() {
+inline bool SuRF::Iter::incrementSparseIter() {
     if (!sparse_iter_.isValid()) 
 	return false;
     sparse_iter_++;
     return sparse_iter_.isValid();
 }
 
-bool SuRF::Iter::operator ++(int) {
+inline bool SuRF::Iter::operator ++(int) {
     if (!isValid()) 
 	return false;
     if (incrementSparseIter()) 
@@ -373,7 +373,7 @@ bool SuRF::Iter::operator ++(int) {
     return incrementDenseIter();
 }
 
-bool SuRF::Iter::decrementDenseIter() {
+inline bool SuRF::Iter::decrementDenseIter() {
     if (!dense_iter_.isValid()) 
 	return false;
 
@@ -388,14 +388,14 @@ bool SuRF::Iter::decrementDenseIter() {
     return true;
 }
 
-bool SuRF::Iter::decrementSparseIter() {
+inline bool SuRF::Iter::decrementSparseIter() {
     if (!sparse_iter_.isValid()) 
 	return false;
     sparse_iter_--;
     return sparse_iter_.isValid();
 }
 
-bool SuRF::Iter::operator --(int) {
+inline bool SuRF::Iter::operator --(int) {
     if (!isValid()) 
 	return false;
     if (decrementSparseIter()) 
diff --git a/include/surf_builder.hpp b/include/surf_builder.hpp
index 280fb81..b80ff08 100644
--- a/include/surf_builder.hpp
+++ b/include/surf_builder.hpp
@@ -173,7 +173,7 @@ private:
     std::vector<bool> is_last_item_terminator_;
 };
 
-void SuRFBuilder::build(const std::vector<std::string>& keys) {
+inline void SuRFBuilder::build(const std::vector<std::string>& keys) {
     assert(keys.size() > 0);
     buildSparse(keys);
     if (include_dense_) {
@@ -182,7 +182,7 @@ void SuRFBuilder::build(const std::vector<std::string>& keys) {
     }
 }
 
-void SuRFBuilder::buildSparse(const std::vector<std::string>& keys) {
+inline void SuRFBuilder::buildSparse(const std::vector<std::string>& keys) {
     for (position_t i = 0; i < keys.size(); i++) {
 	level_t level = skipCommonPrefix(keys[i]);	
 	position_t curpos = i;
@@ -196,7 +196,7 @@ void SuRFBuilder::buildSparse(const std::vector<std::string>& keys) {
     }
 }
 
-level_t SuRFBuilder::skipCommonPrefix(const std::string& key) {
+inline level_t SuRFBuilder::skipCommonPrefix(const std::string& key) {
     level_t level = 0;
     while (level < key.length() && isCharCommonPrefix((label_t)key[level], level)) {
 	setBit(child_indicator_bits_[level], getNumItems(level) - 1);
@@ -205,7 +205,7 @@ level_t SuRFBuilder::skipCommonPrefix(const std::string& key) {
     return level;
 }
 
-level_t SuRFBuilder::insertKeyBytesToTrieUntilUnique(const std::string& key, const std::string& next_key, const level_t start_level) {
+inline level_t SuRFBuilder::insertKeyBytesToTrieUntilUnique(const std::string& key, const std::string& next_key, const level_t start_level) {
     assert(start_level < key.length());
 
     level_t level = start_level;
@@ -271,7 +271,7 @@ inline void SuRFBuilder::moveToNextItemSlot(const level_t level) {
     }
 }
 
-void SuRFBuilder::insertKeyByte(const char c, const level_t level, const bool is_start_of_node, const bool is_term) {
+inline void SuRFBuilder::insertKeyByte(const char c, const level_t level, const bool is_start_of_node, const bool is_term) {
     // level should be at most equal to tree height
     if (level >= getTreeHeight())
 	addLevel();
@@ -350,7 +350,7 @@ inline uint64_t SuRFBuilder::computeSparseMem(const level_t start_level) const {
     return mem;
 }
 
-void SuRFBuilder::buildDense() {
+inline void SuRFBuilder::buildDense() {
     for (level_t level = 0; level < sparse_start_level_; level++) {
 	initDenseVectors(level);
 	if (getNumItems(level) == 0) continue;
@@ -373,7 +373,7 @@ void SuRFBuilder::buildDense() {
     }
 }
 
-void SuRFBuilder::initDenseVectors(const level_t level) {
+inline void SuRFBuilder::initDenseVectors(const level_t level) {
     bitmap_labels_.push_back(std::vector<word_t>());
     bitmap_child_indicator_bits_.push_back(std::vector<word_t>());
     prefixkey_indicator_bits_.push_back(std::vector<word_t>());
@@ -388,7 +388,7 @@ void SuRFBuilder::initDenseVectors(const level_t level) {
     }
 }
 
-void SuRFBuilder::setLabelAndChildIndicatorBitmap(const level_t level, 
+inline void SuRFBuilder::setLabelAndChildIndicatorBitmap(const level_t level, 
 						  const position_t node_num, const position_t pos) {
     label_t label = labels_[level][pos];
     setBit(bitmap_labels_[level], node_num * kFanout + label);
@@ -396,7 +396,7 @@ void SuRFBuilder::setLabelAndChildIndicatorBitmap(const level_t level,
 	setBit(bitmap_child_indicator_bits_[level], node_num * kFanout + label);
 }
 
-void SuRFBuilder::addLevel() {
+inline void SuRFBuilder::addLevel() {
     labels_.push_back(std::vector<label_t>());
     child_indicator_bits_.push_back(std::vector<word_t>());
     louds_bits_.push_back(std::vector<word_t>());
@@ -410,15 +410,15 @@ void SuRFBuilder::addLevel() {
     louds_bits_[getTreeHeight() - 1].push_back(0);
 }
 
-position_t SuRFBuilder::getNumItems(const level_t level) const {
+inline position_t SuRFBuilder::getNumItems(const level_t level) const {
     return labels_[level].size();
 }
 
-bool SuRFBuilder::isStartOfNode(const level_t level, const position_t pos) const {
+inline bool SuRFBuilder::isStartOfNode(const level_t level, const position_t pos) const {
     return readBit(louds_bits_[level], pos);
 }
 
-bool SuRFBuilder::isTerminator(const level_t level, const position_t pos) const {
+inline bool SuRFBuilder::isTerminator(const level_t level, const position_t pos) const {
     label_t label = labels_[level][pos];
     return ((label == kTerminator) && !readBit(child_indicator_bits_[level], pos));
 }
-- 
2.43.0


From 49c5d1847857be0e614a58d749d21219af0cc816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 02/17] fix: keep suffix shift counts below the word size

---
 include/suffix.hpp       | 15 +++++++++------
 include/surf_builder.hpp |  4 ++++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index c9ba597..2410686 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -35,8 +35,9 @@ public:
 
     static word_t constructHashSuffix(const std::string& key, const level_t len) {
 	word_t suffix = suffixHash(key);
-	suffix <<= (kWordSize - len - kHashShift);
-	suffix >>= (kWordSize - len);
+	suffix >>= kHashShift;
+	if (len < kWordSize)
+	    suffix &= (((word_t)1 << len) - 1);
 	return suffix;
     }
 
@@ -69,7 +70,7 @@ public:
         word_t hash_suffix = constructHashSuffix(key, hash_len);
         word_t real_suffix = constructRealSuffix(key, real_level, real_len);
         word_t suffix = hash_suffix;
-        suffix <<= real_len;
+        suffix = (real_len < kWordSize) ? (suffix << real_len) : 0;
         suffix |= real_suffix;
         return suffix;
     }
@@ -90,10 +91,12 @@ public:
     }
 
     static word_t extractHashSuffix(const word_t suffix, const level_t real_suffix_len) {
-        return (suffix >> real_suffix_len);
+        return (real_suffix_len < kWordSize) ? (suffix >> real_suffix_len) : 0;
     }
 
     static word_t extractRealSuffix(const word_t suffix, const level_t real_suffix_len) {
+        if (real_suffix_len >= kWordSize)
+            return suffix;
         word_t real_suffix_mask = 1;
         real_suffix_mask <<= real_suffix_len;
         real_suffix_mask--;
@@ -189,7 +192,7 @@ inline word_t BitvectorSuffix::read(const position_t idx) const {
 	return 0;
 
     level_t suffix_len = getSuffixLen();
-    if (idx * suffix_len >= num_bits_) 
+    if (suffix_len == 0 || idx * suffix_len >= num_bits_) 
 	return 0;
 
     position_t bit_pos = idx * suffix_len;
@@ -197,7 +200,7 @@ inline word_t BitvectorSuffix::read(const position_t idx) const {
     position_t offset = bit_pos & (kWordSize - 1);
     word_t ret_word = (bits_[word_id] << offset) >> (kWordSize - suffix_len);
     if (offset + suffix_len > kWordSize)
-	ret_word += (bits_[word_id+1] >> (kWordSize - offset - suffix_len));
+	ret_word += (bits_[word_id+1] >> (2 * kWordSize - offset - suffix_len));
     return ret_word;
 }
 
diff --git a/include/surf_builder.hpp b/include/surf_builder.hpp
index b80ff08..33d124b 100644
--- a/include/surf_builder.hpp
+++ b/include/surf_builder.hpp
@@ -295,6 +295,10 @@ inline void SuRFBuilder::insertKeyByte(const char c, const level_t level, const
 
 inline void SuRFBuilder::storeSuffix(const level_t level, const word_t suffix) {
     level_t suffix_len = getSuffixLen();
+    if (suffix_len == 0) { // nothing to store, only count the key
+	suffix_counts_[level-1]++;
+	return;
+    }
     position_t pos = suffix_counts_[level-1] * suffix_len;
     assert(pos <= (suffixes_[level-1].size() * kWordSize));
     if (pos == (suffixes_[level-1].size() * kWordSize))
-- 
2.43.0


From 31b81e66c4070029014be3e2f1a13e12e72313ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 03/17] fix: keep bitvector accesses and distances inside the
 bitvector

---
 include/bitvector.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/bitvector.hpp b/include/bitvector.hpp
index 4e68f0c..dcbcba9 100644
--- a/include/bitvector.hpp
+++ b/include/bitvector.hpp
@@ -76,6 +76,8 @@ inline bool Bitvector::readBit (const position_t pos) const {
 
 inline position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
     assert(pos < num_bits_);
+    if (pos + 1 >= num_bits_)
+	return (num_bits_ - pos);
     position_t distance = 1;
 
     position_t word_id = (pos + 1) / kWordSize;
@@ -98,7 +100,7 @@ inline position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
 	    return (distance + __builtin_clzll(test_bits));
 	distance += kWordSize;
     }
-    return distance;
+    return (num_bits_ - pos);
 }
 
 inline position_t Bitvector::distanceToPrevSetBit (const position_t pos) const {
@@ -158,12 +160,12 @@ inline void Bitvector::concatenateBitvectors(const std::vector<std::vector<word_
 	if (bits_remain > 0) {
 	    word_t last_word = bitvector_per_level[level][num_complete_words];
 	    bits_[word_id] |= (last_word >> bit_shift);
-	    if (bit_shift + bits_remain < kWordSize) {
-		bit_shift += bits_remain;
-	    } else {
+	    bit_shift += bits_remain;
+	    if (bit_shift >= kWordSize) {
 		word_id++;
-		bits_[word_id] |= (last_word << (kWordSize - bit_shift));
-		bit_shift = bit_shift + bits_remain - kWordSize;
+		bit_shift -= kWordSize;
+		if (bit_shift > 0) // the last word straddles a word boundary
+		    bits_[word_id] |= (last_word << (bits_remain - bit_shift));
 	    }
 	}
     }
-- 
2.43.0


From dddc79cf3a337390d186318fa40072d8573e799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 04/17] fix: size the label array for its labels plus one SIMD
 load

---
 include/label_vector.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/label_vector.hpp b/include/label_vector.hpp
index fa31658..a8bfc15 100644
--- a/include/label_vector.hpp
+++ b/include/label_vector.hpp
@@ -23,11 +23,7 @@ public:
 	for (level_t level = start_level; level < end_level; level++)
 	    num_bytes_ += labels_per_level[level].size();
 
-	//labels_ = new label_t[num_bytes_];
-	position_t alloc_bytes = num_bytes_ * (num_bytes_ / kWordSize + 1);
-	labels_ = new label_t[alloc_bytes];
-	for (position_t i = 0; i < alloc_bytes; i++)
-	  labels_[i] = 0;
+	labels_ = allocate(num_bytes_);
 
 	position_t pos = 0;
 	for (level_t level = start_level; level < end_level; level++) {
@@ -85,7 +81,7 @@ public:
 	memcpy(&(lv->num_bytes_), src, sizeof(lv->num_bytes_));
 	src += sizeof(lv->num_bytes_);
 	
-	lv->labels_ = new label_t[lv->num_bytes_];
+	lv->labels_ = allocate(lv->num_bytes_);
 	memcpy(lv->labels_, src, lv->num_bytes_);
 	src += lv->num_bytes_;
 	
@@ -100,6 +96,15 @@ public:
     }
 
 private:
+    // simdSearch loads 16 labels at a time: the array is padded so that
+    // a load starting at any label stays inside the allocation
+    static label_t* allocate(const position_t num_bytes) {
+	return new label_t[(uint64_t)num_bytes + kSimdWidth - 1]();
+    }
+
+private:
+    static const position_t kSimdWidth = 16;
+
     position_t num_bytes_;
     label_t* labels_;
 };
-- 
2.43.0


From fa32bd862e9410f0c286dd0f0ef96495db79c141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 05/17] fix: do not take a lone 0xff label for a terminator

---
 include/surf_builder.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/surf_builder.hpp b/include/surf_builder.hpp
index 33d124b..5e9b62e 100644
--- a/include/surf_builder.hpp
+++ b/include/surf_builder.hpp
@@ -424,7 +424,10 @@ inline bool SuRFBuilder::isStartOfNode(const level_t level, const position_t pos
 
 inline bool SuRFBuilder::isTerminator(const level_t level, const position_t pos) const {
     label_t label = labels_[level][pos];
-    return ((label == kTerminator) && !readBit(child_indicator_bits_[level], pos));
+    if ((label != kTerminator) || readBit(child_indicator_bits_[level], pos))
+	return false;
+    // a terminator is never the only item of its node; a lone 0xff is a real label
+    return ((pos + 1 < getNumItems(level)) && !isStartOfNode(level, pos + 1));
 }
 
 } // namespace surf
-- 
2.43.0


From 39e6c8799192130836dea8fe989684752ed797e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 06/17] fix: compare suffixes of short keys conservatively

---
 include/suffix.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index 2410686..e0e5018 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -259,9 +259,23 @@ inline int BitvectorSuffix::compare(const position_t idx,
     if (type_ == kMixed)
         stored_suffix = extractRealSuffix(stored_suffix, real_suffix_len_);
 
-    if ((stored_suffix == 0) && (querying_suffix == 0))
-	return kCouldBePositive;
-    else if ((stored_suffix == 0) || (stored_suffix < querying_suffix))
+    if (stored_suffix == 0) {
+	// A stored key too short for its suffix may still have complete bytes
+	// after level if the suffix is longer than a byte.
+	if ((querying_suffix == 0) || (real_suffix_len_ > 8))
+	    return kCouldBePositive;
+	return -1;
+    }
+
+    // The querying key is too short to fill a suffix: compare the bits it has.
+    size_t avail_len = (key.length() < level) ? 0 : (key.length() - level) * 8;
+    if (avail_len < real_suffix_len_) {
+	querying_suffix = constructRealSuffix(key, level, avail_len);
+	stored_suffix >>= (real_suffix_len_ - avail_len) % kWordSize;
+	return ((avail_len > 0) && (stored_suffix < querying_suffix)) ? -1 : 1;
+    }
+
+    if (stored_suffix < querying_suffix)
 	return -1;
     else if (stored_suffix == querying_suffix) 
 	return kCouldBePositive;
-- 
2.43.0


From eb298d6353a4798379261686ac0ddff6d1372689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 07/17] fix: complete seeks and steps that end inside
 LOUDS-Dense

---
 include/louds_dense.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index f5be0b3..84a4f53 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -237,14 +237,15 @@ inline bool LoudsDense::moveToKeyGreaterThan(const std::string& key,
 	// if is_at_prefix_key_, pos is at the next valid position in the child node
 	pos = node_num * kNodeFanout;
 	if (level >= key.length()) { // if run out of searchKey bytes
-	    iter.append(getNextPos(pos - 1));
-	    if (prefixkey_indicator_bits_->readBit(node_num)) //if the prefix is also a key
+	    iter.append(label_bitmaps_->readBit(pos) ? pos : getNextPos(pos));
+	    if (prefixkey_indicator_bits_->readBit(node_num)) { //if the prefix is also a key
 		iter.is_at_prefix_key_ = true;
-	    else
-		iter.moveToLeftMostKey();
-	    // valid, search complete, moveLeft complete, moveRight complete
-	    iter.setFlags(true, true, true, true); 
-	    return true;
+		// valid, search complete, moveLeft complete, moveRight complete
+		iter.setFlags(true, true, true, true); 
+		return true;
+	    }
+	    iter.moveToLeftMostKey();
+	    return false;
 	}
 
 	pos += (label_t)key[level];
@@ -403,7 +404,7 @@ inline position_t LoudsDense::getNextPos(const position_t pos) const {
 
 inline position_t LoudsDense::getPrevPos(const position_t pos, bool* is_out_of_bound) const {
     position_t distance = label_bitmaps_->distanceToPrevSetBit(pos);
-    if (pos <= distance) {
+    if (pos == 0 || pos < distance) {
 	*is_out_of_bound = true;
 	return 0;
     }
-- 
2.43.0


From 4fd9b7e9cef75165f4d7f2da83ee842efa6a872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 08/17] fix: stay inside the node when a LOUDS-Sparse seek
 moves right

---
 include/louds_sparse.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index e70e35b..2c3ae6b 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -255,10 +255,11 @@ inline bool LoudsSparse::moveToKeyGreaterThan(const std::string& key,
 
     level_t level;
     for (level = start_level_; level < key.length(); level++) {
-	position_t node_size = nodeSize(pos);
+	position_t node_pos = pos;
+	position_t node_size = nodeSize(node_pos);
 	// if no exact match
 	if (!labels_->search((label_t)key[level], pos, node_size)) {
-	    moveToLeftInNextSubtrie(pos, node_size, key[level], iter);
+	    moveToLeftInNextSubtrie(node_pos, node_size, key[level], iter);
 	    return false;
 	}
 
@@ -449,9 +450,10 @@ inline bool LoudsSparse::isEndofNode(const position_t pos) const {
 
 inline void LoudsSparse::moveToLeftInNextSubtrie(position_t pos, const position_t node_size, 
 					  const label_t label, LoudsSparse::Iter& iter) const {
+    position_t last_pos = pos + node_size - 1;
     // if no label is greater than key[level] in this node
     if (!labels_->searchGreaterThan(label, pos, node_size)) {
-	iter.append(pos + node_size - 1);
+	iter.append(last_pos);
 	return iter++;
     } else {
 	iter.append(pos);
-- 
2.43.0


From 7bfda454b706f75b8bb274927b8c9ad9a1226860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 09/17] fix: make filters without LOUDS-Dense levels work

---
 include/louds_dense.hpp | 13 ++++++++++---
 include/surf.hpp        |  5 ++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 84a4f53..1682adb 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -185,7 +185,7 @@ inline LoudsDense::LoudsDense(const SuRFBuilder* builder) {
 						  builder->getPrefixkeyIndicatorBits(),
 						  builder->getNodeCounts(), 0, height_);
 
-    if (builder->getSuffixType() == kNone) {
+    if (builder->getSuffixType() == kNone || height_ == 0) {
 	suffixes_ = new BitvectorSuffix();
     } else {
 	level_t hash_suffix_len = builder->getHashSuffixLen();
@@ -300,6 +300,7 @@ inline uint64_t LoudsDense::approxCount(const LoudsDense::Iter* iter_left,
 				 const LoudsDense::Iter* iter_right,
 				 position_t& out_node_num_left,
 				 position_t& out_node_num_right) const {
+    if (height_ == 0) return 0;
     std::vector<position_t> left_pos_list, right_pos_list;
     for (level_t i = 0; i < iter_left->key_len_; i++)
 	left_pos_list.push_back(iter_left->pos_in_trie_[i]);
@@ -596,7 +597,10 @@ inline void LoudsDense::Iter::moveToRightMostKey() {
 }
 
 inline void LoudsDense::Iter::operator ++(int) {
-    assert(key_len_ > 0);
+    if (key_len_ == 0) { // no dense levels
+	is_valid_ = false;
+	return;
+    }
     if (is_at_prefix_key_) {
 	is_at_prefix_key_ = false;
 	return moveToLeftMostKey();
@@ -618,7 +622,10 @@ inline void LoudsDense::Iter::operator ++(int) {
 }
 
 inline void LoudsDense::Iter::operator --(int) {
-    assert(key_len_ > 0);
+    if (key_len_ == 0) { // no dense levels
+	is_valid_ = false;
+	return;
+    }
     if (is_at_prefix_key_) {
 	is_at_prefix_key_ = false;
 	key_len_--;
diff --git a/include/surf.hpp b/include/surf.hpp
index 98c14ed..e1d518e 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -144,7 +144,7 @@ inline bool SuRF::lookupKey(const std::string& key) const {
     position_t connect_node_num = 0;
     if (!louds_dense_->lookupKey(key, connect_node_num))
 	return false;
-    else if (connect_node_num != 0)
+    else if (connect_node_num != 0 || louds_dense_->getHeight() == 0)
 	return louds_sparse_->lookupKey(key, connect_node_num);
     return true;
 }
@@ -198,6 +198,8 @@ inline SuRF::Iter SuRF::moveToFirst() const {
 	iter.passToSparse();
 	iter.sparse_iter_.moveToLeftMostKey();
     } else {
+	// no dense levels: the dense iterator only passes through to the sparse root
+	louds_dense_->moveToKeyGreaterThan(std::string(), true, iter.dense_iter_);
 	iter.sparse_iter_.setToFirstLabelInRoot();
 	iter.sparse_iter_.moveToLeftMostKey();
     }
@@ -214,6 +216,7 @@ inline SuRF::Iter SuRF::moveToLast() const {
 	iter.passToSparse();
 	iter.sparse_iter_.moveToRightMostKey();
     } else {
+	louds_dense_->moveToKeyGreaterThan(std::string(), true, iter.dense_iter_);
 	iter.sparse_iter_.setToLastLabelInRoot();
 	iter.sparse_iter_.moveToRightMostKey();
     }
-- 
2.43.0


From 146e7d7355172c99b8490cf67638797f5bdb6455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 10/17] fix: keep LOUDS-Sparse node lookups inside the sparse
 levels

---
 include/louds_sparse.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 2c3ae6b..2d9fc62 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -186,6 +186,8 @@ inline LoudsSparse::LoudsSparse(const SuRFBuilder* builder) {
 
     if (start_level_ == 0)
 	child_count_dense_ = 0;
+    else if (start_level_ == height_) // no sparse levels
+	child_count_dense_ = node_count_dense_ - 1;
     else
 	child_count_dense_ = node_count_dense_ + builder->getNodeCounts()[start_level_] - 1;
 
@@ -298,7 +300,9 @@ inline position_t LoudsSparse::appendToPosList(std::vector<position_t>& pos_list
 					const position_t node_num,
 					const level_t level,
 					const bool isLeft, bool& done) const {
-    position_t pos = getFirstLabelPos(node_num);
+    position_t pos = kMaxPos;
+    if (node_num + 1 - node_count_dense_ <= louds_bits_->numOnes())
+	pos = getFirstLabelPos(node_num);
     if (pos > level_cuts_[start_level_ + level]) {
 	pos = kMaxPos;
 	if (isLeft) {
@@ -357,7 +361,7 @@ inline uint64_t LoudsSparse::approxCount(const LoudsSparse::Iter* iter_left,
 				  const LoudsSparse::Iter* iter_right,
 				  const position_t in_node_num_left,
 				  const position_t in_node_num_right) const {
-    if (in_node_num_left == kMaxPos) return 0;
+    if (in_node_num_left == kMaxPos || start_level_ == height_) return 0;
     std::vector<position_t> left_pos_list, right_pos_list;
     for (level_t i = 0; i < iter_left->key_len_; i++)
 	left_pos_list.push_back(iter_left->pos_in_trie_[i]);
@@ -384,10 +388,9 @@ inline uint64_t LoudsSparse::approxCount(const LoudsSparse::Iter* iter_left,
 	//assert(left_pos <= right_pos);
 	if (left_pos < right_pos) {
 	    position_t rank_left = child_indicator_bits_->rank(left_pos);
-	    position_t rank_right = child_indicator_bits_->rank(right_pos);
+	    // right_pos may be one past the last bit
+	    position_t rank_right = child_indicator_bits_->rank(right_pos - 1);
 	    position_t num_leafs = (right_pos - left_pos) - (rank_right - rank_left);
-	    if (child_indicator_bits_->readBit(right_pos))
-		num_leafs++;
 	    if (child_indicator_bits_->readBit(left_pos))
 		num_leafs--;
 	    if (i == ori_left_len - 1)
-- 
2.43.0


From a88835ee847f4e9f271a8366981615ebbda97f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 11/17] fix: count LOUDS-Dense leaves inside the bitmaps in
 approxCount

---
 include/louds_dense.hpp  | 65 +++++++++++++++++-----------------------
 include/louds_sparse.hpp |  1 +
 2 files changed, 28 insertions(+), 38 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 1682adb..178f487 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -148,6 +148,8 @@ private:
 				  LoudsDense::Iter& iter) const;
     void extendPosList(std::vector<position_t>& pos_list,
 		       position_t& out_node_num) const;
+    position_t countOnes(const BitvectorRank* bits, const position_t begin,
+			 const position_t end/* non-inclusive */) const;
 
 private:
     static const position_t kNodeFanout = 256;
@@ -296,6 +298,12 @@ inline void LoudsDense::extendPosList(std::vector<position_t>& pos_list,
     }
 }
 
+inline position_t LoudsDense::countOnes(const BitvectorRank* bits, const position_t begin,
+					const position_t end/* non-inclusive */) const {
+    if (begin >= end) return 0;
+    return bits->rank(end - 1) - ((begin > 0) ? bits->rank(begin - 1) : 0);
+}
+
 inline uint64_t LoudsDense::approxCount(const LoudsDense::Iter* iter_left,
 				 const LoudsDense::Iter* iter_right,
 				 position_t& out_node_num_left,
@@ -316,47 +324,28 @@ inline uint64_t LoudsDense::approxCount(const LoudsDense::Iter* iter_left,
     for (level_t i = 0; i < height_; i++) {
 	position_t left_pos = left_pos_list[i];
 	if (left_pos == kMaxPos) break;
-	if (i == (ori_left_len - 1) && iter_left->is_at_prefix_key_)
-	    left_pos = (left_pos / kNodeFanout) * kNodeFanout;
 	position_t right_pos = right_pos_list[i];
 	if (right_pos == kMaxPos)
-	    right_pos = level_cuts_[i];
+	    right_pos = level_cuts_[i] + 1;
+
+	// A prefix key sorts before the labels of its node: it belongs to the
+	// range only if the boundary is at the start of the node.
+	position_t left_node = left_pos / kNodeFanout;
+	if (i == (ori_left_len - 1) && iter_left->is_at_prefix_key_)
+	    left_pos = left_node * kNodeFanout;
+	else if (i < ori_left_len)
+	    left_node++;
+	position_t right_node = right_pos / kNodeFanout;
 	if (i == (ori_right_len - 1) && iter_right->is_at_prefix_key_)
-	    right_pos = (right_pos / kNodeFanout) * kNodeFanout;
-	//assert(left_pos <= right_pos);
-	if (left_pos < right_pos) {
-	    if (i >= ori_left_len)
-		left_pos = getNextPos(left_pos);
-	    if (i >= ori_right_len && right_pos != level_cuts_[height_ - 1])
-		right_pos = getNextPos(right_pos);
-	    bool has_prefix_key_left
-		= prefixkey_indicator_bits_->readBit(left_pos / kNodeFanout);
-	    bool has_prefix_key_right
-		= prefixkey_indicator_bits_->readBit(right_pos / kNodeFanout);
-	    position_t rank_left_label = label_bitmaps_->rank(left_pos);
-	    position_t rank_right_label = label_bitmaps_->rank(right_pos);
-	    if (right_pos == level_cuts_[height_ - 1])
-		rank_right_label++;
-	    position_t rank_left_ind = child_indicator_bitmaps_->rank(left_pos);
-	    position_t rank_right_ind = child_indicator_bitmaps_->rank(right_pos);
-	    position_t rank_left_prefix
-		= prefixkey_indicator_bits_->rank(left_pos / kNodeFanout);
-	    position_t rank_right_prefix
-		= prefixkey_indicator_bits_->rank(right_pos / kNodeFanout);
-	    position_t num_leafs = (rank_right_label - rank_left_label)
-		- (rank_right_ind - rank_left_ind)
-		+ (rank_right_prefix - rank_left_prefix);
-	    // offcount in child_indicators
-	    if (child_indicator_bitmaps_->readBit(right_pos))
-		num_leafs++;
-	    if (child_indicator_bitmaps_->readBit(left_pos))
-		num_leafs--;
-	    // offcount in prefix keys
-	    if (i >= ori_right_len && has_prefix_key_right)
-		num_leafs--;
-	    if (i >= ori_left_len && has_prefix_key_left)
-		num_leafs++;
-	    if (iter_left->is_search_complete_ && (i == ori_left_len - 1))
+	    right_pos = right_node * kNodeFanout;
+	else if (i < ori_right_len)
+	    right_node++;
+
+	if (left_pos < right_pos || left_node < right_node) {
+	    position_t num_leafs = countOnes(label_bitmaps_, left_pos, right_pos)
+		- countOnes(child_indicator_bitmaps_, left_pos, right_pos)
+		+ countOnes(prefixkey_indicator_bits_, left_node, right_node);
+	    if (iter_left->isComplete() && (i == ori_left_len - 1))
 		num_leafs--;
 	    count += num_leafs;
 	}
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 2d9fc62..1da0179 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -671,6 +671,7 @@ inline void LoudsSparse::Iter::operator --(int) {
     is_at_terminator_ = false;
     position_t pos = pos_in_trie_[key_len_ - 1];
     if (pos == 0) {
+	key_len_ = 0;
 	is_valid_ = false;
 	return;
     }
-- 
2.43.0


From 3885c7d73636276bc2210298f623b02af66fbeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 12/17] fix: keep no query state in the filter

---
 include/surf.hpp | 59 ++++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index e1d518e..64fa6a5 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -86,10 +86,10 @@ public:
     SuRF::Iter moveToFirst() const;
     SuRF::Iter moveToLast() const;
     bool lookupRange(const std::string& left_key, const bool left_inclusive, 
-		     const std::string& right_key, const bool right_inclusive);
+		     const std::string& right_key, const bool right_inclusive) const;
     // Accurate except at the boundaries --> undercount by at most 2
-    uint64_t approxCount(const std::string& left_key, const std::string& right_key);
-    uint64_t approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2);
+    uint64_t approxCount(const std::string& left_key, const std::string& right_key) const;
+    uint64_t approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2) const;
 
     uint64_t serializedSize() const;
     uint64_t getMemoryUsage() const;
@@ -110,7 +110,6 @@ public:
 	SuRF* surf = new SuRF();
 	surf->louds_dense_ = LoudsDense::deSerialize(src);
 	surf->louds_sparse_ = LoudsSparse::deSerialize(src);
-	surf->iter_ = SuRF::Iter(surf);
 	return surf;
     }
 
@@ -123,8 +122,6 @@ private:
     LoudsDense* louds_dense_;
     LoudsSparse* louds_sparse_;
     SuRFBuilder* builder_;
-    SuRF::Iter iter_;
-    SuRF::Iter iter2_;
 };
 
 inline void SuRF::create(const std::vector<std::string>& keys, 
@@ -136,7 +133,6 @@ inline void SuRF::create(const std::vector<std::string>& keys,
     builder_->build(keys);
     louds_dense_ = new LoudsDense(builder_);
     louds_sparse_ = new LoudsSparse(builder_);
-    iter_ = SuRF::Iter(this);
     delete builder_;
 }
 
@@ -224,24 +220,24 @@ inline SuRF::Iter SuRF::moveToLast() const {
 }
 
 inline bool SuRF::lookupRange(const std::string& left_key, const bool left_inclusive, 
-		       const std::string& right_key, const bool right_inclusive) {
-    iter_.clear();
-    louds_dense_->moveToKeyGreaterThan(left_key, left_inclusive, iter_.dense_iter_);
-    if (!iter_.dense_iter_.isValid()) return false;
-    if (!iter_.dense_iter_.isComplete()) {
-	if (!iter_.dense_iter_.isSearchComplete()) {
-	    iter_.passToSparse();
-	    louds_sparse_->moveToKeyGreaterThan(left_key, left_inclusive, iter_.sparse_iter_);
-	    if (!iter_.sparse_iter_.isValid()) {
-		iter_.incrementDenseIter();
+		       const std::string& right_key, const bool right_inclusive) const {
+    SuRF::Iter iter(this);
+    louds_dense_->moveToKeyGreaterThan(left_key, left_inclusive, iter.dense_iter_);
+    if (!iter.dense_iter_.isValid()) return false;
+    if (!iter.dense_iter_.isComplete()) {
+	if (!iter.dense_iter_.isSearchComplete()) {
+	    iter.passToSparse();
+	    louds_sparse_->moveToKeyGreaterThan(left_key, left_inclusive, iter.sparse_iter_);
+	    if (!iter.sparse_iter_.isValid()) {
+		iter.incrementDenseIter();
 	    }
-	} else if (!iter_.dense_iter_.isMoveLeftComplete()) {
-	    iter_.passToSparse();
-	    iter_.sparse_iter_.moveToLeftMostKey();
+	} else if (!iter.dense_iter_.isMoveLeftComplete()) {
+	    iter.passToSparse();
+	    iter.sparse_iter_.moveToLeftMostKey();
 	}
     }
-    if (!iter_.isValid()) return false;
-    int compare = iter_.compare(right_key);
+    if (!iter.isValid()) return false;
+    int compare = iter.compare(right_key);
     if (compare == kCouldBePositive)
 	return true;
     if (right_inclusive)
@@ -250,7 +246,7 @@ inline bool SuRF::lookupRange(const std::string& left_key, const bool left_inclu
 	return (compare < 0);
 }
 
-inline uint64_t SuRF::approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2) {
+inline uint64_t SuRF::approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2) const {
     if (!iter->isValid() || !iter2->isValid()) return 0;
     position_t out_node_num_left = 0, out_node_num_right = 0;
     uint64_t count = louds_dense_->approxCount(&(iter->dense_iter_),
@@ -265,15 +261,14 @@ inline uint64_t SuRF::approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter
 }
 
 inline uint64_t SuRF::approxCount(const std::string& left_key,
-			   const std::string& right_key) {
-    iter_.clear(); iter2_.clear();
-    iter_ = moveToKeyGreaterThan(left_key, true);
-    if (!iter_.isValid()) return 0;
-    iter2_ = moveToKeyGreaterThan(right_key, true);
-    if (!iter2_.isValid())
-	iter2_ = moveToLast();
-
-    return approxCount(&iter_, &iter2_);
+			   const std::string& right_key) const {
+    SuRF::Iter iter = moveToKeyGreaterThan(left_key, true);
+    if (!iter.isValid()) return 0;
+    SuRF::Iter iter2 = moveToKeyGreaterThan(right_key, true);
+    if (!iter2.isValid())
+	iter2 = moveToLast();
+
+    return approxCount(&iter, &iter2);
 }
 
 inline uint64_t SuRF::serializedSize() const {
-- 
2.43.0


From ab7ebc2c2bef398f704f5a95b2f3329d07cd8d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 13/17] fix: free everything a filter owns in destroy

---
 include/louds_dense.hpp  | 5 +++++
 include/louds_sparse.hpp | 4 ++++
 include/surf.hpp         | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 178f487..4efd330 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -131,10 +131,15 @@ public:
     }
 
     void destroy() {
+	delete[] level_cuts_;
 	label_bitmaps_->destroy();
+	delete label_bitmaps_;
 	child_indicator_bitmaps_->destroy();
+	delete child_indicator_bitmaps_;
 	prefixkey_indicator_bits_->destroy();
+	delete prefixkey_indicator_bits_;
 	suffixes_->destroy();
+	delete suffixes_;
     }
 
 private:
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 1da0179..21fea86 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -129,9 +129,13 @@ public:
     void destroy() {
 	delete[] level_cuts_;
 	labels_->destroy();
+	delete labels_;
 	child_indicator_bits_->destroy();
+	delete child_indicator_bits_;
 	louds_bits_->destroy();
+	delete louds_bits_;
 	suffixes_->destroy();
+	delete suffixes_;
     }
 
 private:
diff --git a/include/surf.hpp b/include/surf.hpp
index 64fa6a5..9e5125e 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -115,7 +115,9 @@ public:
 
     void destroy() {
 	louds_dense_->destroy();
+	delete louds_dense_;
 	louds_sparse_->destroy();
+	delete louds_sparse_;
     }
 
 private:
-- 
2.43.0


From 388d7dc271507e53c21276c71f5b14fe0db20a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 14/17] fix: zero the padding of the serialized image

---
 include/surf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index 9e5125e..69bb36d 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -98,7 +98,7 @@ public:
 
     char* serialize() const {
 	uint64_t size = serializedSize();
-	char* data = new char[size];
+	char* data = new char[size](); // padding is part of the image
 	char* cur_data = data;
 	louds_dense_->serialize(cur_data);
 	louds_sparse_->serialize(cur_data);
-- 
2.43.0


From b0892676a5a49862d7412f6f0b9ab339cd430103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 15/17] fix: count the whole filter in getMemoryUsage

---
 include/louds_dense.hpp  | 1 +
 include/louds_sparse.hpp | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 4efd330..ca0897c 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -372,6 +372,7 @@ inline uint64_t LoudsDense::serializedSize() const {
 
 inline uint64_t LoudsDense::getMemoryUsage() const {
     return (sizeof(LoudsDense)
+	    + sizeof(position_t) * height_
 	    + label_bitmaps_->size()
 	    + child_indicator_bitmaps_->size()
 	    + prefixkey_indicator_bits_->size()
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 21fea86..c9b4646 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -419,7 +419,8 @@ inline uint64_t LoudsSparse::serializedSize() const {
 }
 
 inline uint64_t LoudsSparse::getMemoryUsage() const {
-    return (sizeof(this)
+    return (sizeof(LoudsSparse)
+	    + sizeof(position_t) * height_
 	    + labels_->size()
 	    + child_indicator_bits_->size()
 	    + louds_bits_->size()
-- 
2.43.0


From fc33ad65f085bdca35a846bf8637142e6d5ff465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 16/17] fix: return whole counts from the benchmark filters

---
 bench/filter.hpp       | 2 +-
 bench/filter_bloom.hpp | 4 ++--
 bench/filter_surf.hpp  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bench/filter.hpp b/bench/filter.hpp
index e9fc8d6..28366e8 100644
--- a/bench/filter.hpp
+++ b/bench/filter.hpp
@@ -10,7 +10,7 @@ class Filter {
 public:
     virtual bool lookup(const std::string& key) = 0;
     virtual bool lookupRange(const std::string& left_key, const std::string& right_key) = 0;
-    virtual bool approxCount(const std::string& left_key, const std::string& right_key) = 0;
+    virtual uint64_t approxCount(const std::string& left_key, const std::string& right_key) = 0;
     virtual uint64_t getMemoryUsage() = 0;
 };
 
diff --git a/bench/filter_bloom.hpp b/bench/filter_bloom.hpp
index b36b737..0d33dd1 100644
--- a/bench/filter_bloom.hpp
+++ b/bench/filter_bloom.hpp
@@ -29,9 +29,9 @@ public:
 	return false;
     }
 
-    bool approxCount(const std::string& left_key, const std::string& right_key) {
+    uint64_t approxCount(const std::string& left_key, const std::string& right_key) {
 	std::cout << kRed << "A Bloom filter does not support approximate count queries\n" << kNoColor;
-	return false;
+	return 0;
     }
 
     uint64_t getMemoryUsage() {
diff --git a/bench/filter_surf.hpp b/bench/filter_surf.hpp
index 547d809..1e65e4f 100644
--- a/bench/filter_surf.hpp
+++ b/bench/filter_surf.hpp
@@ -33,7 +33,7 @@ public:
 	return filter_->lookupRange(left_key, true, right_key, true);
     }
 
-    bool approxCount(const std::string& left_key, const std::string& right_key) {
+    uint64_t approxCount(const std::string& left_key, const std::string& right_key) {
 	return filter_->approxCount(left_key, right_key);
     }
 
-- 
2.43.0


From 2a208cc0b204bba088ef038d33ebb363bc2cc730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 17/17] fix: accept exactly the documented benchmark arguments

---
 bench/workload.cpp              | 15 ++++++++-------
 bench/workload_multi_thread.cpp |  9 ++++-----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bench/workload.cpp b/bench/workload.cpp
index 9b4e0f3..2bba605 100644
--- a/bench/workload.cpp
+++ b/bench/workload.cpp
@@ -5,11 +5,11 @@ int main(int argc, char *argv[]) {
     if (argc != 9) {
 	std::cout << "Usage:\n";
 	std::cout << "1. filter type: SuRF, SuRFHash, SuRFReal, SuRFMixed, Bloom\n";
-	std::cout << "2. suffix length: 0 < len <= 64 (for SuRFHash and SuRFReal only)\n";
+	std::cout << "2. suffix length: 0 < len <= 64 (len <= 32 for SuRFMixed)\n";
 	std::cout << "3. workload type: mixed, alterByte (only for email key)\n";
 	std::cout << "4. percentage of keys inserted: 0 < num <= 100\n";
 	std::cout << "5. byte position (conting from last, only for alterByte): num\n";
-	std::cout << "6. key type: randint, email\n";
+	std::cout << "6. key type: randint, timestamp, email\n";
 	std::cout << "7. query type: point, range, mix, count-long, count-short\n";
 	std::cout << "8. distribution: uniform, zipfian, latest\n";
 	return -1;
@@ -29,24 +29,25 @@ int main(int argc, char *argv[]) {
 	&& filter_type.compare(std::string("SuRFHash")) != 0
 	&& filter_type.compare(std::string("SuRFReal")) != 0
 	&& filter_type.compare(std::string("SuRFMixed")) != 0
-	&& filter_type.compare(std::string("Bloom")) != 0
-	&& filter_type.compare(std::string("ARF")) != 0) {
+	&& filter_type.compare(std::string("Bloom")) != 0) {
 	std::cout << bench::kRed << "WRONG filter type\n" << bench::kNoColor;
 	return -1;
     }
 
-    if (suffix_len == 0 || suffix_len > 64) {
+    // SuRFMixed stores suffix_len hash bits and suffix_len real bits
+    if (suffix_len == 0 || suffix_len > 64
+	|| (filter_type.compare(std::string("SuRFMixed")) == 0 && suffix_len > 32)) {
 	std::cout << bench::kRed << "WRONG suffix length\n" << bench::kNoColor;
 	return -1;
     }
 
     if (workload_type.compare(std::string("mixed")) != 0
-	&& workload_type.compare(std::string("alterByte")) == 0) {
+	&& workload_type.compare(std::string("alterByte")) != 0) {
 	std::cout << bench::kRed << "WRONG workload type\n" << bench::kNoColor;
 	return -1;
     }
 
-    if (percent > 100) {
+    if (percent == 0 || percent > 100) {
 	std::cout << bench::kRed << "WRONG percentage\n" << bench::kNoColor;
 	return -1;
     }
diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index 29e02ff..3bacc38 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -52,7 +52,7 @@ int main(int argc, char *argv[]) {
 	std::cout << "3. workload type: mixed, alterByte (only for email key)\n";
 	std::cout << "4. percentage of keys inserted: 0 < num <= 100\n";
 	std::cout << "5. byte position (conting from last, only for alterByte): num\n";
-	std::cout << "6. key type: randint, email\n";
+	std::cout << "6. key type: randint, timestamp, email\n";
 	std::cout << "7. query type: point, range\n";
 	std::cout << "8. distribution: uniform, zipfian, latest\n";
 	std::cout << "9. number of threads\n";
@@ -73,8 +73,7 @@ int main(int argc, char *argv[]) {
     if (filter_type.compare(std::string("SuRF")) != 0
 	&& filter_type.compare(std::string("SuRFHash")) != 0
 	&& filter_type.compare(std::string("SuRFReal")) != 0
-	&& filter_type.compare(std::string("Bloom")) != 0
-	&& filter_type.compare(std::string("ARF")) != 0) {
+	&& filter_type.compare(std::string("Bloom")) != 0) {
 	std::cout << bench::kRed << "WRONG filter type\n" << bench::kNoColor;
 	return -1;
     }
@@ -85,12 +84,12 @@ int main(int argc, char *argv[]) {
     }
 
     if (workload_type.compare(std::string("mixed")) != 0
-	&& workload_type.compare(std::string("alterByte")) == 0) {
+	&& workload_type.compare(std::string("alterByte")) != 0) {
 	std::cout << bench::kRed << "WRONG workload type\n" << bench::kNoColor;
 	return -1;
     }
 
-    if (percent > 100) {
+    if (percent == 0 || percent > 100) {
 	std::cout << bench::kRed << "WRONG percentage\n" << bench::kNoColor;
 	return -1;
     }
-- 
2.43.0

