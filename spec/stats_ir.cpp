// Entry points through which the analysis of chunk statistics looks at the encoders (compiled to IR only, never run).
#include <stdint.h>
#include "DataMgr/ArrayNoneEncoder.h"
#include "DataMgr/ChunkMetadata.h"
#include "DataMgr/DateDaysEncoder.h"
#include "DataMgr/FixedLengthArrayNoneEncoder.h"
#include "DataMgr/FixedLengthEncoder.h"
#include "DataMgr/NoneEncoder.h"
#include "DataMgr/StringNoneEncoder.cpp"
#include "DataMgr/Encoder.cpp"

extern "C" [[noreturn]] void other_shape();

#define SCALAR(N, E, T, V)                                                                                             \
  extern "C" void* N##__min(E* e) { return &e->dataMin; }                                                              \
  extern "C" void* N##__max(E* e) { return &e->dataMax; }                                                              \
  extern "C" void* N##__nulls(E* e) { return &e->has_nulls; }                                                          \
  extern "C" void* N##__count(E* e) { return &e->num_elems_; }                                                         \
  extern "C" void N##__int(E* e, int64_t v, bool n) { e->E::updateStats(v, n); }                                       \
  extern "C" void N##__double(E* e, double v, bool n) { e->E::updateStats(v, n); }                                     \
  extern "C" void N##__raw(E* e, const T* p) { e->E::updateStats((const int8_t*)p, size_t(2)); }                       \
  extern "C" void N##__encoded(E* e, const V* p) { e->E::updateStatsEncoded((const int8_t*)p, size_t(2), false); }     \
  extern "C" void N##__encarray(E* e, const V* p) { e->E::updateStatsEncoded((const int8_t*)p, size_t(2), true); }     \
  extern "C" void N##__reduce(E* e, const E* o) { e->E::reduceStats(*o); }                                             \
  extern "C" void N##__copy(E* e, const E* o) { e->E::copyMetadata(o); }                                               \
  extern "C" void N##__reset(E* e, const ChunkStats* s) { e->E::resetChunkStats(*s); }                                \
  extern "C" void N##__write(E* e, FILE* f) { e->E::writeMetadata(f); }                                                \
  extern "C" void N##__read(E* e, FILE* f) { e->E::readMetadata(f); }                                                  \
  extern "C" void N##__meta(E* e, std::shared_ptr<ChunkMetadata>* p) { *p = e->E::getMetadata(); }                     \
  extern "C" void N##__metat(E* e, std::shared_ptr<ChunkMetadata>* p, const hdk::ir::Type* t) {                        \
    *p = e->E::getMetadata(t);                                                                                         \
  }                                                                                                                    \
  extern "C" void N##__stats(E* e, ChunkStats* s, const hdk::ir::Type* t) { e->E::fillChunkStats(*s, t); }

using NoneI8 = NoneEncoder<int8_t>;
using NoneI16 = NoneEncoder<int16_t>;
using NoneI32 = NoneEncoder<int32_t>;
using NoneI64 = NoneEncoder<int64_t>;
using NoneU8 = NoneEncoder<uint8_t>;
using NoneU16 = NoneEncoder<uint16_t>;
using NoneF32 = NoneEncoder<float>;
using NoneF64 = NoneEncoder<double>;
using Fixed8 = FixedLengthEncoder<int64_t, int8_t>;
using Fixed16 = FixedLengthEncoder<int64_t, int16_t>;
using Fixed32 = FixedLengthEncoder<int64_t, int32_t>;
using Days16 = DateDaysEncoder<int64_t, int16_t>;
using Days32 = DateDaysEncoder<int64_t, int32_t>;
using Days64 = DateDaysEncoder<int64_t, int64_t>;
SCALAR(none_i8, NoneI8, int8_t, int8_t)
SCALAR(none_i16, NoneI16, int16_t, int16_t)
SCALAR(none_i32, NoneI32, int32_t, int32_t)
SCALAR(none_i64, NoneI64, int64_t, int64_t)
SCALAR(none_u8, NoneU8, uint8_t, uint8_t)
SCALAR(none_u16, NoneU16, uint16_t, uint16_t)
SCALAR(none_f32, NoneF32, float, float)
SCALAR(none_f64, NoneF64, double, double)
SCALAR(fixed_8, Fixed8, int64_t, int8_t)
SCALAR(fixed_16, Fixed16, int64_t, int16_t)
SCALAR(fixed_32, Fixed32, int64_t, int32_t)
SCALAR(days_16, Days16, int64_t, int16_t)
SCALAR(days_32, Days32, int64_t, int32_t)
SCALAR(days_64, Days64, int64_t, int64_t)

// arrays: two elements of a given type
#define ARRAY_AS(N, E, S, ID, SIZE)                                                                                    \
  extern "C" void N##__upd_##S(E* e, std::vector<ArrayDatum>* v) {                                                                  \
    auto t = e->buffer_->type()->as<hdk::ir::ArrayBaseType>()->elemType();                                             \
    if (t->id() != hdk::ir::Type::ID || t->size() != SIZE) {                                                           \
      other_shape();                                                                                                    \
    }                                                                                                                  \
    (*v)[1].length = 2 * SIZE;                                                                                              \
    e->E::updateStats(v, size_t(1), size_t(1));                                                                                          \
  }
#define ARRAY_FP(N, E, S, P, SIZE)                                                                                     \
  extern "C" void N##__upd_##S(E* e, std::vector<ArrayDatum>* v) {                                                                  \
    auto t = e->buffer_->type()->as<hdk::ir::ArrayBaseType>()->elemType();                                             \
    if (t->id() != hdk::ir::Type::kFloatingPoint ||                                                                    \
        t->as<hdk::ir::FloatingPointType>()->precision() != hdk::ir::FloatingPointType::P) {                           \
      other_shape();                                                                                                    \
    }                                                                                                                  \
    (*v)[1].length = 2 * SIZE;                                                                                              \
    e->E::updateStats(v, size_t(1), size_t(1));                                                                                          \
  }
#define ARRAY(N, E)                                                                                                    \
  extern "C" void* N##__min(E* e) { return &e->elem_min; }                                                             \
  extern "C" void* N##__max(E* e) { return &e->elem_max; }                                                             \
  extern "C" void* N##__nulls(E* e) { return &e->has_nulls; }                                                          \
  extern "C" void* N##__init(E* e) { return &e->initialized; }                                                         \
  extern "C" void* N##__count(E* e) { return &e->num_elems_; }                                                         \
  ARRAY_AS(N, E, bool, kBoolean, 1)                                                                                    \
  ARRAY_AS(N, E, i8, kInteger, 1)                                                                                      \
  ARRAY_AS(N, E, i16, kInteger, 2)                                                                                     \
  ARRAY_AS(N, E, i32, kInteger, 4)                                                                                     \
  ARRAY_AS(N, E, i64, kInteger, 8)                                                                                     \
  ARRAY_AS(N, E, dec16, kDecimal, 2)                                                                                   \
  ARRAY_AS(N, E, dec32, kDecimal, 4)                                                                                   \
  ARRAY_AS(N, E, dec64, kDecimal, 8)                                                                                   \
  ARRAY_AS(N, E, dict32, kExtDictionary, 4)                                                                            \
  ARRAY_FP(N, E, f32, kFloat, 4)                                                                                       \
  ARRAY_FP(N, E, f64, kDouble, 8)                                                                                      \
  ARRAY_AS(N, E, time, kTime, 8)                                                                                       \
  ARRAY_AS(N, E, ts, kTimestamp, 8)                                                                                    \
  ARRAY_AS(N, E, date, kDate, 8)                                                                                       \
  ARRAY_AS(N, E, interval, kInterval, 8)                                                                               \
  extern "C" void N##__copy(E* e, const E* o) { e->E::copyMetadata(o); }                                               \
  extern "C" void N##__reset(E* e, const ChunkStats* s) { e->E::resetChunkStats(*s); }                                \
  extern "C" void N##__write(E* e, FILE* f) { e->E::writeMetadata(f); }                                                \
  extern "C" void N##__read(E* e, FILE* f) { e->E::readMetadata(f); }                                                  \
  extern "C" void N##__meta(E* e, std::shared_ptr<ChunkMetadata>* p) { *p = e->E::getMetadata(); }                     \
  extern "C" void N##__metat(E* e, std::shared_ptr<ChunkMetadata>* p, const hdk::ir::Type* t) {                        \
    *p = e->E::getMetadata(t);                                                                                         \
  }                                                                                                                    \
  extern "C" void N##__vec(E* e, std::vector<ArrayDatum>* v) {                                                         \
    auto t = e->buffer_->type()->as<hdk::ir::ArrayBaseType>()->elemType();                                             \
    if (t->id() != hdk::ir::Type::kInteger || t->size() != 2) {                                                        \
      other_shape();                                                                                                   \
    }                                                                                                                  \
    (*v)[1].length = 2;                                                                                                \
    (*v)[2].length = 2;                                                                                                \
    e->E::updateStats(v, size_t(1), size_t(2));                                                                        \
  }
extern "C" void* array_ptr(ArrayDatum* a) { return &a->pointer; }
extern "C" void* array_null(ArrayDatum* a) { return &a->is_null; }
ARRAY(array, ArrayNoneEncoder)
ARRAY(fixarray, FixedLengthArrayNoneEncoder)
extern "C" const void* array_elem(const std::vector<ArrayDatum>* v) { return &(*v)[1]; }

extern "C" void* string__nulls(StringNoneEncoder* e) { return &e->has_nulls; }
extern "C" void* string__count(StringNoneEncoder* e) { return &e->num_elems_; }
extern "C" void string__vec(StringNoneEncoder* e, const std::vector<std::string>* v) {
  e->StringNoneEncoder::updateStats(v, size_t(1), size_t(2));
}
extern "C" const void* string_elem(const std::vector<std::string>* v) { return &(*v)[1]; }
extern "C" void string__write(StringNoneEncoder* e, FILE* f) { e->StringNoneEncoder::writeMetadata(f); }
extern "C" void string__read(StringNoneEncoder* e, FILE* f) { e->StringNoneEncoder::readMetadata(f); }
extern "C" bool string_empty(const std::string* s) { return s->empty(); }
extern "C" void string__copy(StringNoneEncoder* e, const StringNoneEncoder* o) { e->StringNoneEncoder::copyMetadata(o); }
extern "C" void string__reset(StringNoneEncoder* e, const ChunkStats* s) { e->StringNoneEncoder::resetChunkStats(*s); }

extern "C" void* stats__min(ChunkStats* s) { return &s->min; }
extern "C" void* stats__max(ChunkStats* s) { return &s->max; }
extern "C" void* stats__nulls(ChunkStats* s) { return &s->has_nulls; }
#define STATS_AS(S, ID, SIZE, T)                                                                                       \
  extern "C" void merge_##S(ChunkStats* l, const ChunkStats* r, const hdk::ir::Type* t) {                              \
    if (t->id() != hdk::ir::Type::ID || t->size() != SIZE) {                                                           \
      other_shape();                                                                                                    \
    }                                                                                                                  \
    mergeStats(*l, *r, t);                                                                                             \
  }                                                                                                                    \
  extern "C" void mergearr_##S(ChunkStats* l, const ChunkStats* r, const hdk::ir::Type* a) {                           \
    if (a->id() != hdk::ir::Type::kVarLenArray) {                                                                      \
      other_shape();                                                                                                    \
    }                                                                                                                  \
    auto t = a->as<hdk::ir::ArrayBaseType>()->elemType();                                                              \
    if (t->id() != hdk::ir::Type::ID || t->size() != SIZE) {                                                           \
      other_shape();                                                                                                    \
    }                                                                                                                  \
    mergeStats(*l, *r, a);                                                                                             \
  }                                                                                                                    \
  extern "C" void fill_##S(ChunkStats* s, const hdk::ir::Type* t, T min, T max, bool n) {                              \
    if (t->id() != hdk::ir::Type::ID || t->size() != SIZE) {                                                           \
      other_shape();                                                                                                    \
    }                                                                                                                  \
    fillChunkStats<T>(*s, t, min, max, n);                                                                             \
  }
STATS_AS(bool, kBoolean, 1, int8_t)
STATS_AS(i8, kInteger, 1, int8_t)
STATS_AS(i16, kInteger, 2, int16_t)
STATS_AS(i32, kInteger, 4, int32_t)
STATS_AS(i64, kInteger, 8, int64_t)
STATS_AS(dec16, kDecimal, 2, int16_t)
STATS_AS(dec32, kDecimal, 4, int32_t)
STATS_AS(dec64, kDecimal, 8, int64_t)
STATS_AS(dict8, kExtDictionary, 1, uint8_t)
STATS_AS(dict16, kExtDictionary, 2, uint16_t)
STATS_AS(dict32, kExtDictionary, 4, int32_t)
STATS_AS(time, kTime, 8, int64_t)
STATS_AS(ts, kTimestamp, 8, int64_t)
STATS_AS(date, kDate, 8, int64_t)
STATS_AS(date16, kDate, 2, int64_t)
STATS_AS(date32, kDate, 4, int64_t)
STATS_AS(interval, kInterval, 8, int64_t)
#define STATS_FP(S, P, T)                                                                                              \
  extern "C" void merge_##S(ChunkStats* l, const ChunkStats* r, const hdk::ir::Type* t) {                              \
    if (t->id() != hdk::ir::Type::kFloatingPoint ||                                                                    \
        t->as<hdk::ir::FloatingPointType>()->precision() != hdk::ir::FloatingPointType::P) {                           \
      other_shape();                                                                                                    \
    }                                                                                                                  \
    mergeStats(*l, *r, t);                                                                                             \
  }                                                                                                                    \
  extern "C" void fill_##S(ChunkStats* s, const hdk::ir::Type* t, T min, T max, bool n) {                              \
    if (t->id() != hdk::ir::Type::kFloatingPoint ||                                                                    \
        t->as<hdk::ir::FloatingPointType>()->precision() != hdk::ir::FloatingPointType::P) {                           \
      other_shape();                                                                                                    \
    }                                                                                                                  \
    fillChunkStats<T>(*s, t, min, max, n);                                                                             \
  }
STATS_FP(f32, kFloat, float)
STATS_FP(f64, kDouble, double)

extern "C" Encoder* create(Data_Namespace::AbstractBuffer* b, const hdk::ir::Type* t) { return Encoder::Create(b, t); }
extern "C" int shape_id(const hdk::ir::Type* t) { return t->id(); }
extern "C" int shape_size(const hdk::ir::Type* t) { return t->size(); }
extern "C" int shape_precision(const hdk::ir::FloatingPointType* t) { return t->precision(); }
extern "C" int shape_unit(const hdk::ir::DateTimeBaseType* t) { return static_cast<int>(t->unit()); }
extern "C" void* meta__min(ChunkMetadata* m) { return &m->chunk_stats_.min; }
#define ID(N) \
  extern "C" int id_##N() { return hdk::ir::Type::N; }
ID(kBoolean) ID(kInteger) ID(kDecimal) ID(kExtDictionary) ID(kFloatingPoint) ID(kVarChar) ID(kText)
ID(kFixedLenArray) ID(kVarLenArray) ID(kDate) ID(kTime) ID(kTimestamp) ID(kInterval)
extern "C" int id_kDay() { return static_cast<int>(hdk::ir::TimeUnit::kDay); }
extern "C" int id_kFloat() { return hdk::ir::FloatingPointType::kFloat; }
extern "C" int id_kDouble() { return hdk::ir::FloatingPointType::kDouble; }
