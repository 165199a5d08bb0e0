// What each runtime function has to compute, one definition per function and width, stated from SQL semantics.
// spec_F describes F.  This file is only lowered to IR and compared; it is never linked or run.
// A path that calls dont_care() puts no demand on F.  spec_F__2, __3 ... are other admissible definitions of F.
#include <cmath>
#include <cstdint>
#include <cstring>
#include "IR/DateTimeEnums.h"

extern "C" [[noreturn]] void dont_care();
#define X extern "C" __attribute__((used))

// ---------------------------------------------------------------- C10: NULL propagation
#define ARITH(fam, T, N, op)                                                                                          \
  X T spec_##fam##_##T##_nullable(T l, T r, N null) { return l == null || r == null ? (T)null : (T)(l op r); }        \
  X T spec_##fam##_##T##_nullable_lhs(T l, T r, N null) { return l == null ? (T)null : (T)(l op r); }                 \
  X T spec_##fam##_##T##_nullable_rhs(T l, T r, N null) { return r == null ? (T)null : (T)(l op r); }
#define CMP(fam, T, N, op)                                                                                            \
  X int8_t spec_##fam##_##T##_nullable(T l, T r, N null, int8_t nb) { return l == null || r == null ? nb : l op r; }  \
  X int8_t spec_##fam##_##T##_nullable_lhs(T l, T r, N null, int8_t nb) { return l == null ? nb : l op r; }           \
  X int8_t spec_##fam##_##T##_nullable_rhs(T l, T r, N null, int8_t nb) { return r == null ? nb : l op r; }
#define COMMON(T, N)                                                                                                  \
  ARITH(add, T, N, +) ARITH(sub, T, N, -) ARITH(mul, T, N, *) ARITH(div, T, N, /)                                     \
  CMP(eq, T, N, ==) CMP(ne, T, N, !=) CMP(lt, T, N, <) CMP(gt, T, N, >) CMP(le, T, N, <=) CMP(ge, T, N, >=)           \
  X T spec_safe_div_##T(T l, T r, N null) { return l == null || r == null || r == 0 ? (T)null : (T)(l / r); }
#define INTS(T)                                                                                                       \
  COMMON(T, int64_t)                                                                                                  \
  ARITH(mod, T, int64_t, %) ARITH(bw_and, T, int64_t, &) ARITH(bw_or, T, int64_t, |) ARITH(bw_xor, T, int64_t, ^)     \
  X T spec_bw_not_##T##_nullable(T v, int64_t null) { return v == null ? (T)null : (T)~v; }                           \
  X T spec_uminus_##T##_nullable(T v, T null) { return v == null ? null : (T)-v; }
INTS(int8_t)
INTS(int16_t)
INTS(int32_t)
INTS(int64_t)
COMMON(float, float)
COMMON(double, double)
X float spec_uminus_float_nullable(float v, float null) { return v == null ? null : -v; }
X double spec_uminus_double_nullable(double v, double null) { return v == null ? null : -v; }

// x / 0 is +inf, -inf or (for 0 / 0) NULL
#define INFDIV(T)                                                                                                     \
  X T spec_safe_inf_div_##T(T l, T r, T inf, T null) { return r != 0 ? l / r : l > 0 ? inf : l == 0 ? null : -inf; }
INFDIV(float)
INFDIV(double)

#define CAST(A, B)                                                                                                    \
  X B spec_cast_##A##_to_##B##_nullable(A v, A from_null, B to_null) { return v == from_null ? to_null : (B)v; }
#define ROUND(A, B)                                                                                                   \
  X B spec_cast_##A##_to_##B##_nullable(A v, A from_null, B to_null) {                                                \
    return v == from_null ? to_null : v < A(0) ? (B)(v - A(0.5)) : (B)(v + A(0.5));                                   \
  }                                                                                                                   \
  X B spec_cast_##A##_to_##B##_nullable__2(A v, A from_null, B to_null) {                                             \
    return v == from_null ? to_null : (B)std::round(v);                                                               \
  }                                                                                                                   \
  X B spec_cast_##A##_to_##B##_nullable__3(A v, A from_null, B to_null) {                                             \
    return v == from_null ? to_null : v > A(0) ? (B)(v + A(0.5)) : (B)(v - A(0.5));                                   \
  }
CAST(int8_t, int16_t) CAST(int8_t, int32_t) CAST(int8_t, int64_t) CAST(int8_t, float) CAST(int8_t, double)
CAST(int16_t, int8_t) CAST(int16_t, int32_t) CAST(int16_t, int64_t) CAST(int16_t, float) CAST(int16_t, double)
CAST(int32_t, int8_t) CAST(int32_t, int16_t) CAST(int32_t, int64_t) CAST(int32_t, float) CAST(int32_t, double)
CAST(int64_t, int8_t) CAST(int64_t, int16_t) CAST(int64_t, int32_t) CAST(int64_t, float) CAST(int64_t, double)
CAST(float, double) CAST(double, float) CAST(uint8_t, int32_t) CAST(uint16_t, int32_t)
ROUND(float, int8_t) ROUND(float, int16_t) ROUND(float, int32_t) ROUND(float, int64_t)
ROUND(double, int8_t) ROUND(double, int16_t) ROUND(double, int32_t) ROUND(double, int64_t)
#define SCALED(B)                                                                                                     \
  X B spec_cast_int64_t_to_##B##_scaled_nullable(int64_t v, int64_t from_null, B to_null, B multiplier) {             \
    return v == from_null ? to_null : multiplier * (B)v;                                                              \
  }
SCALED(float)
SCALED(double)

X int64_t spec_scale_decimal_up(int64_t v, uint64_t scale, int64_t null, int64_t rnull) {
  return v == null ? rnull : (int64_t)(v * scale);
}
// decimals are rounded half away from zero
static inline int64_t rounded(int64_t v, int64_t scale) { return (v < 0 ? v - (scale >> 1) : v + (scale >> 1)) / scale; }
static inline int64_t rounded2(int64_t v, int64_t scale) { return (v < 0 ? v - scale / 2 : v + scale / 2) / scale; }
static inline int64_t rounded3(int64_t v, int64_t scale) { return (v > 0 ? v + (scale >> 1) : v - (scale >> 1)) / scale; }
static inline int64_t rounded4(int64_t v, int64_t scale) { return (v > 0 ? v + scale / 2 : v - scale / 2) / scale; }
#define DOWN(S, f)                                                                                                    \
  X int64_t spec_scale_decimal_down_nullable##S(int64_t v, int64_t scale, int64_t null) {                             \
    return v == null ? null : f(v, scale);                                                                            \
  }                                                                                                                   \
  X int64_t spec_scale_decimal_down_not_nullable##S(int64_t v, int64_t scale, int64_t) { return f(v, scale); }
DOWN(, rounded)
DOWN(__2, rounded2)
DOWN(__3, rounded3)
DOWN(__4, rounded4)
// divisor > 0
static inline int64_t floored(int64_t a, int64_t b) { return (a < 0 ? a - (b - 1) : a) / b; }
static inline int64_t floored2(int64_t a, int64_t b) { return a % b < 0 ? a / b - 1 : a / b; }
static inline int64_t floored3(int64_t a, int64_t b) { return a < 0 && a % b != 0 ? a / b - 1 : a / b; }
static inline int64_t floored4(int64_t a, int64_t b) { return a < 0 ? (a + 1) / b - 1 : a / b; }
#define FLOOR(S, f)                                                                                                   \
  X int64_t spec_floor_div_lhs##S(int64_t a, int64_t b) { return f(a, b); }                                           \
  X int64_t spec_floor_div_nullable_lhs##S(int64_t a, int64_t b, int64_t null) { return a == null ? null : f(a, b); }
FLOOR(, floored)
FLOOR(__2, floored2)
FLOOR(__3, floored3)
FLOOR(__4, floored4)

static inline void boolean(int8_t v, int8_t null) {
  if (null == 0 || null == 1 || (v != 0 && v != 1 && v != null)) dont_care();
}
X int8_t spec_logical_not(int8_t v, int8_t null) {
  boolean(v, null);
  return v == null ? null : v == 0 ? 1 : 0;
}
X int8_t spec_logical_and(int8_t l, int8_t r, int8_t null) {
  boolean(l, null);
  boolean(r, null);
  return l == 0 || r == 0 ? 0 : l == null || r == null ? null : 1;
}
X int8_t spec_logical_or(int8_t l, int8_t r, int8_t null) {
  boolean(l, null);
  boolean(r, null);
  return l == 1 || r == 1 ? 1 : l == null || r == null ? null : 0;
}
X int8_t spec_bit_is_set(int64_t bitset, int64_t v, int64_t min, int64_t max, int64_t null, int8_t nb) {
  if (v == null) return nb;
  if (v < min || v > max || bitset == 0) return 0;
  uint64_t i = v - min;
  return ((const int8_t*)bitset)[i >> 3] & (1 << (i & 7)) ? 1 : 0;
}
X int32_t spec_char_length_nullable(const char* s, int32_t len, int32_t null) { return s ? len : null; }

// nullable forms of other functions: NULL operand -> NULL, otherwise the function itself
#define STR_EXT(f)                                                                                                    \
  extern "C" bool f(const char*, const int32_t, const char*, const int32_t);                                          \
  X int8_t spec_##f##_nullable(const char* l, int32_t ll, const char* r, int32_t rl, int8_t null) {                   \
    return !l || !r ? null : f(l, ll, r, rl) ? 1 : 0;                                                                 \
  }
#define LIKE_EXT(f)                                                                                                   \
  extern "C" bool f(const char*, const int32_t, const char*, const int32_t, const char);                              \
  X int8_t spec_##f##_nullable(const char* l, int32_t ll, const char* r, int32_t rl, char e, int8_t null) {           \
    return !l || !r ? null : f(l, ll, r, rl, e) ? 1 : 0;                                                              \
  }
STR_EXT(string_lt) STR_EXT(string_le) STR_EXT(string_gt) STR_EXT(string_ge) STR_EXT(string_eq) STR_EXT(string_ne)
STR_EXT(string_like_simple) STR_EXT(string_ilike_simple)
LIKE_EXT(string_like) LIKE_EXT(string_ilike) LIKE_EXT(regexp_like)
extern "C" int32_t StringCompare(const char*, const int32_t, const char*, const int32_t);
X bool spec_string_lt(const char* l, int32_t ll, const char* r, int32_t rl) { return StringCompare(l, ll, r, rl) < 0; }
X bool spec_string_le(const char* l, int32_t ll, const char* r, int32_t rl) { return StringCompare(l, ll, r, rl) <= 0; }
X bool spec_string_gt(const char* l, int32_t ll, const char* r, int32_t rl) { return StringCompare(l, ll, r, rl) > 0; }
X bool spec_string_ge(const char* l, int32_t ll, const char* r, int32_t rl) { return StringCompare(l, ll, r, rl) >= 0; }
X bool spec_string_eq(const char* l, int32_t ll, const char* r, int32_t rl) { return StringCompare(l, ll, r, rl) == 0; }
X bool spec_string_ne(const char* l, int32_t ll, const char* r, int32_t rl) { return StringCompare(l, ll, r, rl) != 0; }

extern "C" int64_t DateAdd(int32_t, int64_t, int64_t);
extern "C" int64_t DateAddHighPrecision(int32_t, int64_t, int64_t, int32_t);
extern "C" int64_t DateTruncateHighPrecisionToDate(int64_t, int64_t);
extern "C" int64_t TimestampToTimeUpscale(int64_t, int64_t, int64_t);
extern "C" int64_t TimestampToTimeDownscale(int64_t, int64_t, int64_t);
extern "C" int64_t DateDiff(int32_t, int64_t, int64_t);
extern "C" int64_t DateDiffHighPrecision(int32_t, int64_t, int64_t, int32_t, int32_t);
X int64_t spec_DateAddNullable(int32_t f, int64_t n, int64_t t, int64_t null) { return t == null ? null : DateAdd(f, n, t); }
X int64_t spec_DateAddHighPrecisionNullable(int32_t f, int64_t n, int64_t t, int32_t dim, int64_t null) {
  return t == null ? null : DateAddHighPrecision(f, n, t, dim);
}
X int64_t spec_DateTruncateHighPrecisionToDateNullable(int64_t t, int64_t s, int64_t null) {
  return t == null ? null : DateTruncateHighPrecisionToDate(t, s);
}
X int64_t spec_TimestampToTimeUpscaleNullable(int64_t t, int64_t c, int64_t s, int64_t null, int64_t rnull) {
  return t == null ? rnull : TimestampToTimeUpscale(t, c, s);
}
X int64_t spec_TimestampToTimeDownscaleNullable(int64_t t, int64_t c, int64_t s, int64_t null, int64_t rnull) {
  return t == null ? rnull : TimestampToTimeDownscale(t, c, s);
}
X int64_t spec_DateDiffNullable(int32_t f, int64_t a, int64_t b, int64_t null) {
  return a == null || b == null ? null : DateDiff(f, a, b);
}
X int64_t spec_DateDiffHighPrecisionNullable(int32_t f, int64_t a, int64_t b, int32_t da, int32_t db, int64_t null) {
  return a == null || b == null ? null : DateDiffHighPrecision(f, a, b, da, db);
}

extern "C" int64_t hash_join_idx(int64_t, int64_t, int64_t, int64_t);
extern "C" int64_t bucketized_hash_join_idx(int64_t, int64_t, int64_t, int64_t, int64_t);
extern "C" int64_t rowid_hash_join_idx(int64_t, int64_t, int64_t);
X int64_t spec_hash_join_idx_nullable(int64_t h, int64_t k, int64_t lo, int64_t hi, int64_t null) {
  return k == null ? -1 : hash_join_idx(h, k, lo, hi);
}
X int64_t spec_bucketized_hash_join_idx_nullable(int64_t h, int64_t k, int64_t lo, int64_t hi, int64_t null, int64_t b) {
  return k == null ? -1 : bucketized_hash_join_idx(h, k, lo, hi, b);
}
X int64_t spec_rowid_hash_join_idx_nullable(int64_t k, int64_t lo, int64_t hi, int64_t null) {
  return k == null ? -1 : rowid_hash_join_idx(k, lo, hi);
}
X int64_t spec_hash_join_idx_bitwise(int64_t h, int64_t k, int64_t lo, int64_t hi, int64_t null, int64_t tr) {
  return k == null ? hash_join_idx(h, tr, lo, tr) : hash_join_idx(h, k, lo, hi);
}
X int64_t spec_bucketized_hash_join_idx_bitwise(int64_t h, int64_t k, int64_t lo, int64_t hi, int64_t null, int64_t tr,
                                                int64_t b) {
  return k == null ? bucketized_hash_join_idx(h, tr, lo, tr, b) : bucketized_hash_join_idx(h, k, lo, hi, b);
}
#define TRANSLATE(T)                                                                                                  \
  X int64_t spec_translate_null_key_##T(T k, T null, int64_t tr) { return k == null ? tr : (int64_t)k; }
TRANSLATE(int8_t) TRANSLATE(int16_t) TRANSLATE(int32_t) TRANSLATE(int64_t)

extern "C" double width_bucket(double, double, double, double, int32_t);
extern "C" double width_bucket_reversed(double, double, double, double, int32_t);
extern "C" double width_bucket_expr(double, bool, double, double, int32_t);
X double spec_width_bucket_nullable(double v, double lo, double hi, double s, int32_t n, double null) {
  return v == null ? (double)INT32_MIN : width_bucket(v, lo, hi, s, n);
}
X double spec_width_bucket_reversed_nullable(double v, double lo, double hi, double s, int32_t n, double null) {
  return v == null ? (double)INT32_MIN : width_bucket_reversed(v, lo, hi, s, n);
}
X double spec_width_bucket_expr_nullable(double v, bool rev, double lo, double hi, int32_t n, double null) {
  return v == null ? (double)INT32_MIN : width_bucket_expr(v, rev, lo, hi, n);
}
extern "C" int64_t fixed_width_int_decode(const int8_t*, int32_t, int64_t);
X int64_t spec_fixed_width_small_date_decode(const int8_t* b, int32_t w, int32_t null, int64_t rnull, int64_t pos) {
  int64_t v = fixed_width_int_decode(b, w, pos);
  return v == null ? rnull : v * 86400;
}
X int64_t spec_fixed_width_small_date_decode_noinline(const int8_t* b, int32_t w, int32_t null, int64_t rnull, int64_t pos) {
  int64_t v = fixed_width_int_decode(b, w, pos);
  return v == null ? rnull : v * 86400;
}

// ---------------------------------------------------------------- C11: aggregates
template <class T> static inline T larger(T a, T b) { return a < b ? b : a; }
template <class T> static inline T smaller(T a, T b) { return b < a ? b : a; }
template <class T> static inline T plus(T a, T b) { return a + b; }
template <class T, class A> static inline T get(A* a) { T t; memcpy(&t, a, sizeof t); return t; }
template <class T, class A> static inline void put(A* a, T t) { memcpy(a, &t, sizeof t); }
template <class T> static inline bool samebits(T a, T b) {
  if (sizeof(T) == 8) return get<int64_t>(&a) == get<int64_t>(&b);
  return get<int32_t>(&a) == get<int32_t>(&b);
}

// A: accumulator slot type, T: value type.  empty() decides whether the accumulator still holds the marker.
#define FOLD(name, R, ret, A, T, f, empty)                                                                            \
  X R spec_agg_##name(A* agg, T v) { T old = get<T>(agg); put<T>(agg, f<T>(old, v)); ret; }                           \
  X R spec_agg_##name##_skip_val(A* agg, T v, T skip) {                                                               \
    T old = get<T>(agg);                                                                                              \
    if (v != skip) put<T>(agg, empty ? v : f<T>(old, v));                                                             \
    ret;                                                                                                              \
  }
#define IEMPTY (old == skip)
#define FEMPTY samebits(old, skip)
FOLD(sum, int64_t, return old, int64_t, int64_t, plus, IEMPTY)
FOLD(sum_int32, int32_t, return old, int32_t, int32_t, plus, IEMPTY)
FOLD(sum_double, void, , int64_t, double, plus, FEMPTY)
FOLD(sum_float, void, , int32_t, float, plus, FEMPTY)
FOLD(max, void, , int64_t, int64_t, larger, IEMPTY)
FOLD(max_int32, void, , int32_t, int32_t, larger, IEMPTY)
FOLD(max_int16, void, , int16_t, int16_t, larger, IEMPTY)
FOLD(max_int8, void, , int8_t, int8_t, larger, IEMPTY)
FOLD(max_double, void, , int64_t, double, larger, FEMPTY)
FOLD(max_float, void, , int32_t, float, larger, FEMPTY)
FOLD(min, void, , int64_t, int64_t, smaller, IEMPTY)
FOLD(min_int32, void, , int32_t, int32_t, smaller, IEMPTY)
FOLD(min_int16, void, , int16_t, int16_t, smaller, IEMPTY)
FOLD(min_int8, void, , int8_t, int8_t, smaller, IEMPTY)
FOLD(min_double, void, , int64_t, double, smaller, FEMPTY)
FOLD(min_float, void, , int32_t, float, smaller, FEMPTY)

#define COUNT(sfx, A, T)                                                                                              \
  X A spec_agg_count##sfx(A* agg, T) { A old = *agg; *agg = old + 1; return old; }                                    \
  X A spec_agg_count##sfx##_skip_val(A* agg, T v, T skip) { A old = *agg; if (v != skip) *agg = old + 1; return old; }
COUNT(, uint64_t, int64_t)
COUNT(_int32, uint32_t, int32_t)
COUNT(_double, uint64_t, double)
COUNT(_float, uint32_t, float)

#define LAST(sfx, A, T, same)                                                                                         \
  X void spec_agg_id##sfx(A* agg, T v) { put<T>(agg, v); }                                                            \
  X int32_t spec_checked_single_agg_id##sfx(A* agg, T v, T null) {                                                    \
    T old = get<T>(agg);                                                                                              \
    if (v == null || same(old, v)) return 0;                                                                          \
    if (same(old, null)) { put<T>(agg, v); return 0; }                                                                \
    return 15; /* the single-value aggregate found two values */                                                      \
  }
template <class T> static inline bool sameval(T a, T b) { return a == b; }
LAST(, int64_t, int64_t, sameval)
LAST(_int32, int32_t, int32_t, sameval)
LAST(_int16, int16_t, int16_t, sameval)
LAST(_int8, int8_t, int8_t, sameval)
LAST(_double, int64_t, double, samebits)
LAST(_float, int32_t, float, samebits)

X void spec_agg_count_distinct_bitmap(int64_t* agg, int64_t v, int64_t min) {
  uint64_t i = v - min;
  ((int8_t*)*agg)[i >> 3] |= 1 << (i & 7);
}
X void spec_agg_count_distinct_bitmap_skip_val(int64_t* agg, int64_t v, int64_t min, int64_t skip) {
  if (v != skip) spec_agg_count_distinct_bitmap(agg, v, min);
}
X void spec_write_projection_int64(int8_t* slot, int64_t v, int64_t init) { if (v != init) *(int64_t*)slot = v; }
X void spec_write_projection_int32(int8_t* slot, int32_t v, int64_t init) { if (v != init) *(int32_t*)slot = v; }

#define TOPK(sfx, T)                                                                                                  \
  extern "C" void agg_topk_##sfx(int64_t*, T, T, int, bool);                                                          \
  extern "C" void agg_quantile_impl_##sfx(int64_t*, T);                                                               \
  X void spec_agg_topk_##sfx##_skip_val(int64_t* agg, T v, T skip, int k, bool inl) {                                 \
    if (v != skip) agg_topk_##sfx(agg, v, skip, k, inl);                                                              \
  }                                                                                                                   \
  X void spec_agg_quantile_##sfx(int64_t* agg, T v) { agg_quantile_impl_##sfx(agg, v); }                              \
  X void spec_agg_quantile_##sfx##_skip_val(int64_t* agg, T v, T skip) { if (v != skip) agg_quantile_impl_##sfx(agg, v); }
TOPK(int8, int8_t)
TOPK(int16, int16_t)
TOPK(int32, int32_t)
TOPK(int64, int64_t)
TOPK(float, float)
TOPK(double, double)

X double spec_load_double(const int64_t* a) { return get<double>(a); }
X float spec_load_float(const int32_t* a) { return get<float>(a); }
X double spec_load_avg_int(const int64_t* s, const int64_t* n, double null) { return *n == 0 ? null : (double)*s / *n; }
X double spec_load_avg_decimal(const int64_t* s, const int64_t* n, double null, uint32_t scale) {
  return *n == 0 ? null : (double)*s / pow(10, scale) / *n;
}
X double spec_load_avg_double(const int64_t* s, const int64_t* n, double null) { return *n == 0 ? null : get<double>(s) / *n; }
X double spec_load_avg_float(const int32_t* s, const int32_t* n, double null) { return *n == 0 ? null : get<float>(s) / *n; }
// the float average divided in double precision is at least as exact
X double spec_load_avg_float__2(const int32_t* s, const int32_t* n, double null) {
  return *n == 0 ? null : (double)get<float>(s) / *n;
}

// ---------------------------------------------------------------- C10: decimals (scale > 0)
static inline int64_t dfloor(int64_t x, int64_t s) { return x >= 0 || x % s == 0 ? x / s * s : x / s * s - s; }
static inline int64_t dfloor2(int64_t x, int64_t s) { return x - (x % s < 0 ? x % s + s : x % s); }
static inline int64_t dfloor3(int64_t x, int64_t s) { return floored(x, s) * s; }
#define DFLOOR(S, f)                                                                                                  \
  X int64_t spec_decimal_floor##S(int64_t x, int64_t s) { return f(x, s); }                                           \
  X int64_t spec_decimal_ceil##S(int64_t x, int64_t s) { return x % s == 0 ? f(x, s) : f(x, s) + s; }
DFLOOR(, dfloor)
DFLOOR(__2, dfloor2)
DFLOOR(__3, dfloor3)

// ---------------------------------------------------------------- C24: slots
#define DECODE(sfx)                                                                                                   \
  X int64_t spec_fixed_width_int_decode##sfx(const int8_t* b, int32_t w, int64_t pos) {                               \
    switch (w) {                                                                                                      \
      case 1: return b[pos];                                                                                          \
      case 2: return ((const int16_t*)b)[pos];                                                                        \
      case 4: return ((const int32_t*)b)[pos];                                                                        \
      case 8: return ((const int64_t*)b)[pos];                                                                        \
    }                                                                                                                 \
    dont_care();                                                                                                      \
  }                                                                                                                   \
  X int64_t spec_fixed_width_unsigned_decode##sfx(const int8_t* b, int32_t w, int64_t pos) {                          \
    switch (w) {                                                                                                      \
      case 1: return ((const uint8_t*)b)[pos];                                                                        \
      case 2: return ((const uint16_t*)b)[pos];                                                                       \
      case 4: return ((const uint32_t*)b)[pos];                                                                       \
      case 8: return ((const uint64_t*)b)[pos];                                                                       \
    }                                                                                                                 \
    dont_care();                                                                                                      \
  }                                                                                                                   \
  X float spec_fixed_width_float_decode##sfx(const int8_t* b, int64_t pos) { return ((const float*)b)[pos]; }         \
  X double spec_fixed_width_double_decode##sfx(const int8_t* b, int64_t pos) { return ((const double*)b)[pos]; }
DECODE()
DECODE(_noinline)
X int64_t spec_diff_fixed_width_int_decode(const int8_t* b, int32_t w, int64_t base, int64_t pos) {
  return fixed_width_int_decode(b, w, pos) + base;
}
X int32_t* spec_get_hash_slot(int32_t* b, int64_t k, int64_t lo) { return b + (k - lo); }
X int32_t* spec_get_bucketized_hash_slot(int32_t* b, int64_t k, int64_t lo, int64_t bucket) { return b + (k - lo) / bucket; }
X int64_t spec_hash_join_idx(int64_t h, int64_t k, int64_t lo, int64_t hi) {
  return k < lo || k > hi ? -1 : ((const int32_t*)h)[k - lo];
}
X int64_t spec_bucketized_hash_join_idx(int64_t h, int64_t k, int64_t lo, int64_t hi, int64_t bucket) {
  return k < lo || k > hi ? -1 : ((const int32_t*)h)[(k - lo) / bucket];
}
X int64_t spec_rowid_hash_join_idx(int64_t k, int64_t lo, int64_t hi) { return k < lo || k > hi ? -1 : k; }
static const int64_t EMPTY = INT64_MAX;
static inline int64_t bin(int64_t k, int64_t lo, int64_t bucket) { return bucket ? (k - lo) / bucket : k - lo; }
X int64_t* spec_get_group_value_fast(int64_t* g, int64_t k, int64_t lo, int64_t bucket, uint32_t row) {
  int64_t off = bin(k, lo, bucket) * row;
  if (g[off] == EMPTY) g[off] = k;
  return g + off + 1;
}
X int64_t* spec_get_group_value_fast_with_original_key(int64_t* g, int64_t k, int64_t orig, int64_t lo, int64_t bucket,
                                                       uint32_t row) {
  int64_t off = bin(k, lo, bucket) * row;
  if (g[off] == EMPTY) g[off] = orig;
  return g + off + 1;
}
X uint32_t spec_get_columnar_group_bin_offset(int64_t* keys, int64_t k, int64_t lo, int64_t bucket) {
  int64_t off = bin(k, lo, bucket);
  if (keys[off] == EMPTY) keys[off] = k;
  return off;
}
X int64_t* spec_get_scan_output_slot(int64_t* out, uint32_t n, uint32_t pos, int64_t v, uint32_t row) {
  if (pos >= n) return nullptr;
  out[(uint64_t)pos * row] = v;
  return out + (uint64_t)pos * row + 1;
}
X int32_t spec_get_columnar_scan_output_offset(int64_t* out, uint32_t n, uint32_t pos, int64_t v) {
  if (pos >= n) return -1;
  out[pos] = v;
  return pos;
}
X int64_t* spec_get_group_value_fast_keyless(int64_t* g, int64_t k, int64_t lo, int64_t, uint32_t row) {
  return g + row * (k - lo);
}
X int64_t* spec_get_group_value_fast_keyless_semiprivate(int64_t* g, int64_t k, int64_t lo, int64_t, uint32_t row,
                                                         uint8_t lane, uint8_t lanes) {
  return g + row * (lanes * (k - lo) + lane);
}
X int64_t* spec_get_matching_group_value_perfect_hash_keyless(int64_t* g, uint32_t h, uint32_t row) { return g + row * h; }
// a packed string reference holds 48 bits of address and 16 bits of length
X int8_t* spec_extract_str_ptr(uint64_t s) { return (int8_t*)(s & 0xffffffffffff); }
X int8_t* spec_extract_str_ptr_noinline(uint64_t s) { return (int8_t*)(s & 0xffffffffffff); }
X int32_t spec_extract_str_len(uint64_t s) { return (int64_t)s >> 48; }
X int32_t spec_extract_str_len_noinline(uint64_t s) { return (int64_t)s >> 48; }
X uint64_t spec_string_pack(const int8_t* p, int32_t len) { return ((uint64_t)p & 0xffffffffffff) | ((uint64_t)len << 48); }
X int32_t spec_map_string_dict_id(int32_t id, int64_t map) { return ((const int32_t*)map)[id]; }
X int32_t spec_key_for_string_encoded(int32_t id) { return id; }
X int32_t spec_char_length(const char*, int32_t len) { return len; }
X int64_t spec_row_number_window_func(int64_t buff, int64_t pos) { return ((const int64_t*)buff)[pos]; }
X double spec_percent_window_func(int64_t buff, int64_t pos) { return ((const double*)buff)[pos]; }
// the first positive error code is kept
X void spec_record_error_code(int32_t code, int32_t* codes) { if (code != 0 && codes[0] <= 0) codes[0] = code; }
X int32_t spec_get_error_code(int32_t* codes) { return codes[0]; }
X int32_t spec_pos_start_impl(int32_t* code) {
  if (!code) return 0;
  int32_t r = *code;
  *code = 0;
  return r;
}
X double spec_width_bucket(double v, double lo, double hi, double scale, int32_t n) {
  return v < lo ? 0 : v >= hi ? n + 1 : (v - lo) * scale + 1;
}
X double spec_width_bucket_reversed(double v, double lo, double hi, double scale, int32_t n) {
  return v > lo ? 0 : v <= hi ? n + 1 : (lo - v) * scale + 1;
}
X double spec_width_bucket_no_oob_check(double v, double lo, double scale) { return (v - lo) * scale + 1; }
X double spec_width_bucket_reversed_no_oob_check(double v, double lo, double scale) { return (lo - v) * scale + 1; }
X double spec_width_bucket_expr(double v, bool rev, double lo, double hi, int32_t n) {
  return rev ? width_bucket_reversed(v, lo, hi, n / (lo - hi), n) : width_bucket(v, lo, hi, n / (hi - lo), n);
}
X double spec_width_bucket_expr_no_oob_check(double v, bool rev, double lo, double hi, int32_t n) {
  return rev ? (lo - v) * (n / (lo - hi)) + 1 : (v - lo) * (n / (hi - lo)) + 1;
}

// ---------------------------------------------------------------- C25: fixed-length time units, field dispatch
static inline int64_t mod(int64_t a, int64_t b) { int64_t m = a % b; return m < 0 ? m + b : m; }
static inline int64_t mod2(int64_t a, int64_t b) { return a - floored(a, b) * b; }
static inline int64_t mod3(int64_t a, int64_t b) { return a - floored3(a, b) * b; }
#define DAY 86400
#define TIME(S, f, m)                                                                                                 \
  X int64_t spec_extract_hour##S(int64_t t) { return m(t, DAY) / 3600; }                                              \
  X int64_t spec_extract_minute##S(int64_t t) { return m(t, 3600) / 60; }                                             \
  X int64_t spec_extract_second##S(int64_t t) { return m(t, 60); }                                                    \
  X int64_t spec_extract_millisecond##S(int64_t t) { return m(t, 60 * 1000); }                                        \
  X int64_t spec_extract_microsecond##S(int64_t t) { return m(t, 60 * 1000000); }                                     \
  X int64_t spec_extract_nanosecond##S(int64_t t) { return m(t, 60 * 1000000000ll); }                                 \
  X int64_t spec_extract_dow##S(int64_t t) { return m(f(t, DAY) + 4, 7); }                                            \
  X int64_t spec_extract_isodow##S(int64_t t) { return m(f(t, DAY) + 3, 7) + 1; }                                     \
  X int64_t spec_extract_quarterday##S(int64_t t) { return m(t, DAY) / (DAY / 4) + 1; }                               \
  X int64_t spec_extract_epoch##S(int64_t t) { return t; }                                                            \
  X int64_t spec_extract_dateepoch##S(int64_t t) { return t - m(t, DAY); }                                            \
  X int64_t spec_datetrunc_minute##S(int64_t t) { return t - m(t, 60); }                                              \
  X int64_t spec_datetrunc_hour##S(int64_t t) { return t - m(t, 3600); }                                              \
  X int64_t spec_datetrunc_quarterday##S(int64_t t) { return t - m(t, DAY / 4); }                                     \
  X int64_t spec_datetrunc_day##S(int64_t t) { return t - m(t, DAY); }                                                \
  X int64_t spec_datetrunc_week_monday##S(int64_t t) { return t - m(t + 3 * DAY, 7 * DAY); }                          \
  X int64_t spec_datetrunc_week_sunday##S(int64_t t) { return t - m(t + 4 * DAY, 7 * DAY); }                          \
  X int64_t spec_datetrunc_week_saturday##S(int64_t t) { return t - m(t + 5 * DAY, 7 * DAY); }                        \
  X int64_t spec_DateTruncateHighPrecisionToDate##S(int64_t t, int64_t s) { return f(t, s * DAY) * DAY; }             \
  X int64_t spec_TimestampToTimeUpscale##S(int64_t t, int64_t c, int64_t s) { return m(t * c, s * DAY); }             \
  X int64_t spec_TimestampToTimeDownscale##S(int64_t t, int64_t c, int64_t s) { return m(t, s * DAY) / c; }
TIME(, floored, mod)
TIME(__2, floored2, mod)
TIME(__3, floored3, mod)
TIME(__4, floored4, mod)
TIME(__5, floored, mod2)
TIME(__6, floored3, mod3)
extern "C" int64_t extract_dow(int64_t);
X int64_t spec_extract_isodow__7(int64_t t) { return extract_dow(t) == 0 ? 7 : extract_dow(t); }

using hdk::ir::DateAddField;
using hdk::ir::DateExtractField;
using hdk::ir::DateTruncField;
// adding n quarters, years, ... is adding that many times 3, 12, ... months
X int64_t spec_DateAdd(DateAddField f, int64_t n, int64_t t) {
  const int month = (int)DateAddField::kMonth;
  switch (f) {
    case DateAddField::kSecond: return t + n;
    case DateAddField::kMinute: return t + n * 60;
    case DateAddField::kHour: return t + n * 3600;
    case DateAddField::kDay:
    case DateAddField::kWeekDay:
    case DateAddField::kDayOfYear: return t + n * DAY;
    case DateAddField::kWeek: return t + n * 7 * DAY;
    case DateAddField::kQuarter: return DateAdd(month, n * 3, t);
    case DateAddField::kYear: return DateAdd(month, n * 12, t);
    case DateAddField::kDecade: return DateAdd(month, n * 120, t);
    case DateAddField::kCentury: return DateAdd(month, n * 1200, t);
    case DateAddField::kMillennium: return DateAdd(month, n * 12000, t);
    default: dont_care();
  }
}
X int64_t spec_DateDiff(DateTruncField f, int64_t a, int64_t b) {
  switch (f) {
    case DateTruncField::kNano: return (b - a) * 1000000000;
    case DateTruncField::kMicro: return (b - a) * 1000000;
    case DateTruncField::kMilli: return (b - a) * 1000;
    case DateTruncField::kSecond: return b - a;
    case DateTruncField::kMinute: return (b - a) / 60;
    case DateTruncField::kHour: return (b - a) / 3600;
    case DateTruncField::kQuarterDay: return (b - a) / (DAY / 4);
    case DateTruncField::kDay: return (b - a) / DAY;
    case DateTruncField::kWeek:
    case DateTruncField::kWeekSunday:
    case DateTruncField::kWeekSaturday: return (b - a) / (7 * DAY);
    default: dont_care();
  }
}
#define FIELD(K, F) extern "C" int64_t F(int64_t);
#define TRUNCS(E)                                                                                                     \
  E(Minute, datetrunc_minute) E(Hour, datetrunc_hour) E(QuarterDay, datetrunc_quarterday) E(Day, datetrunc_day)       \
  E(Week, datetrunc_week_monday) E(WeekSunday, datetrunc_week_sunday) E(WeekSaturday, datetrunc_week_saturday)        \
  E(Month, datetrunc_month) E(Quarter, datetrunc_quarter) E(Year, datetrunc_year) E(Decade, datetrunc_decade)         \
  E(Century, datetrunc_century) E(Millennium, datetrunc_millennium)
#define EXTRACTS(E)                                                                                                   \
  E(Epoch, extract_epoch) E(DateEpoch, extract_dateepoch) E(QuarterDay, extract_quarterday) E(Hour, extract_hour)     \
  E(Minute, extract_minute) E(Second, extract_second) E(Milli, extract_millisecond) E(Micro, extract_microsecond)     \
  E(Nano, extract_nanosecond) E(DayOfWeek, extract_dow) E(IsoDayOfWeek, extract_isodow) E(Day, extract_day)           \
  E(Week, extract_week_monday) E(WeekSunday, extract_week_sunday) E(WeekSaturday, extract_week_saturday)              \
  E(DayOfYear, extract_day_of_year) E(Month, extract_month) E(Quarter, extract_quarter) E(Year, extract_year)
TRUNCS(FIELD)
EXTRACTS(FIELD)
X int64_t spec_DateTruncate(DateTruncField f, int64_t t) {
#define CASE(K, F) case DateTruncField::k##K: return F(t);
  switch (f) {
    case DateTruncField::kNano:
    case DateTruncField::kMicro:
    case DateTruncField::kMilli:
    case DateTruncField::kSecond: return t;
    TRUNCS(CASE)
    default: dont_care();
  }
#undef CASE
}
X int64_t spec_ExtractFromTime(DateExtractField f, int64_t t) {
#define CASE(K, F) case DateExtractField::k##K: return F(t);
  switch (f) { EXTRACTS(CASE) default: dont_care(); }
#undef CASE
}
