// Entry points for the analysis: one function per public operation of the library.
// Only its IR is analysed; nothing here is ever linked or run.
#include <assert.h>
#include <new>
#include <string>
#include <vector>
#include "surf.hpp"

using surf::SuRF;
typedef std::vector<std::string> Keys;

// ---- read-only operations on a built filter -------------------------------------------------
bool q_lookupKey(SuRF* f, const std::string& key) { return f->lookupKey(key); }
bool q_lookupRange(SuRF* f, const std::string& l, bool li, const std::string& r, bool ri) { return f->lookupRange(l, li, r, ri); }
uint64_t q_approxCount(SuRF* f, const std::string& l, const std::string& r) { return f->approxCount(l, r); }
uint64_t q_approxCountIter(SuRF* f, const SuRF::Iter* a, const SuRF::Iter* b) { return f->approxCount(a, b); }
void q_moveToKeyGreaterThan(SuRF* f, const std::string& k, bool inc, SuRF::Iter* out) { SuRF::Iter it = f->moveToKeyGreaterThan(k, inc); *out = it; }
void q_moveToKeyLessThan(SuRF* f, const std::string& k, bool inc, SuRF::Iter* out) { SuRF::Iter it = f->moveToKeyLessThan(k, inc); *out = it; }
void q_moveToFirst(SuRF* f, SuRF::Iter* out) { SuRF::Iter it = f->moveToFirst(); *out = it; }
void q_moveToLast(SuRF* f, SuRF::Iter* out) { SuRF::Iter it = f->moveToLast(); *out = it; }
uint64_t q_serializedSize(SuRF* f) { return f->serializedSize(); }
uint64_t q_getMemoryUsage(SuRF* f) { return f->getMemoryUsage(); }
unsigned q_getHeight(SuRF* f) { return f->getHeight(); }
unsigned q_getSparseStartLevel(SuRF* f) { return f->getSparseStartLevel(); }
char* q_serialize(SuRF* f) { return f->serialize(); }

// ---- the same seeks, into storage that holds nothing yet -------------------------------------
void r_moveToKeyGreaterThan(SuRF* f, const std::string& k, bool inc, SuRF::Iter* out) { new (out) SuRF::Iter(f->moveToKeyGreaterThan(k, inc)); }
void r_moveToKeyLessThan(SuRF* f, const std::string& k, bool inc, SuRF::Iter* out) { new (out) SuRF::Iter(f->moveToKeyLessThan(k, inc)); }
void r_moveToFirst(SuRF* f, SuRF::Iter* out) { new (out) SuRF::Iter(f->moveToFirst()); }
void r_moveToLast(SuRF* f, SuRF::Iter* out) { new (out) SuRF::Iter(f->moveToLast()); }

// ---- operations on an iterator --------------------------------------------------------------
bool i_isValid(SuRF::Iter* it) { return it->isValid(); }
bool i_getFpFlag(SuRF::Iter* it) { return it->getFpFlag(); }
int i_compare(SuRF::Iter* it, const std::string& k) { return it->compare(k); }
void i_getKey(SuRF::Iter* it, std::string* out) { *out = it->getKey(); }
int i_getSuffix(SuRF::Iter* it, surf::word_t* s) { return it->getSuffix(s); }
void i_getKeyWithSuffix(SuRF::Iter* it, unsigned* bits, std::string* out) { *out = it->getKeyWithSuffix(bits); }
bool i_increment(SuRF::Iter* it) { return (*it)++; }
bool i_decrement(SuRF::Iter* it) { return (*it)--; }
void i_clear(SuRF::Iter* it) { it->clear(); }

// ---- life of a filter -----------------------------------------------------------------------
SuRF* c_create(const Keys& keys, bool dense, uint32_t ratio, surf::SuffixType t, surf::level_t h, surf::level_t r) { return new SuRF(keys, dense, ratio, t, h, r); }
SuRF* c_create_default(const Keys& keys) { return new SuRF(keys); }
SuRF* c_create_suffix(const Keys& keys, surf::SuffixType t, surf::level_t h, surf::level_t r) { return new SuRF(keys, t, h, r); }
void c_create_inplace(SuRF* f, const Keys& keys, bool dense, uint32_t ratio, surf::SuffixType t, surf::level_t h, surf::level_t r) { f->create(keys, dense, ratio, t, h, r); }
SuRF* c_deserialize(char* src) { return SuRF::deSerialize(src); }
void c_destroy(SuRF* f) { f->destroy(); delete f; }
void c_life_built(const Keys& keys, bool dense, uint32_t ratio, surf::SuffixType t, surf::level_t h, surf::level_t r) {
    SuRF* f = new SuRF(keys, dense, ratio, t, h, r); f->destroy(); delete f; }
void c_life_loaded(char* src) { SuRF* f = SuRF::deSerialize(src); f->destroy(); delete f; }
void c_save(SuRF* f) { char* p = f->serialize(); delete[] p; }
