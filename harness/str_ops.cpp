// Entry points of comparison, search, decimal text and string literals. Every body is a single call into the real code.
#include <cstdint>
#include <fu/export.h>
#include <fu/int.h>
#include <fu/str.h>
#include <fu/vec.h>
#include <fu/vec_range.h>
#include <fu/view.h>
#include <fu/vec/LEGACY_cmp.h>
#include <fu/vec/LEGACY_find.h>
#include <fu/vec/concat.h>
#include <fu/vec/concat_one.h>
#include <fu/decstr.cpp>
#include "elems.h"

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

// ---- comparison, for items of type T
#define EQ(NM, T, tag, A, B) \
extern "C" bool CAT(NM, _eq_##tag)(const A* a, const B* b) { return *a == *b; } \
extern "C" bool CAT(NM, _ne_##tag)(const A* a, const B* b) { return *a != *b; }
#define EQS(NM, T) \
EQ(NM, T, vv, fu::vec<T>, fu::vec<T>) EQ(NM, T, vw, fu::vec<T>, fu::view<T>) EQ(NM, T, wv, fu::view<T>, fu::vec<T>) \
EQ(NM, T, ww, fu::view<T>, fu::view<T>) EQ(NM, T, rcw, fu::vec_range<T>, fu::view<T>) EQ(NM, T, vrm, fu::vec<T>, fu::vec_range_mut<T>)
EQS(c1, char)
EQS(c2, short)
EQS(c8, uint64_t)
EQS(b24, Big24)
EQ(c1, char, vs, fu::str, fu::strlit)
EQ(c1, char, sw, fu::strlit, fu::view<char>)
EQ(c1, char, wmw, fu::view_mut<char>, fu::view<char>)

#define ORD(tag, A, B) \
extern "C" bool ord_lt_##tag(const A* a, const B* b) { return *a < *b; } \
extern "C" bool ord_gt_##tag(const A* a, const B* b) { return *a > *b; } \
extern "C" bool ord_le_##tag(const A* a, const B* b) { return *a <= *b; } \
extern "C" bool ord_ge_##tag(const A* a, const B* b) { return *a >= *b; }
ORD(vv, fu::str, fu::str)
ORD(vs, fu::str, fu::strlit)
ORD(sw, fu::strlit, fu::view<char>)
ORD(ww, fu::view<char>, fu::view<char>)

// ---- search
typedef fu::view<char> W;
#define FIND(tag, A, B) \
extern "C" int  find_##tag(const A* h, const B* n)                        { return fu::lfind(*h, *n); } \
extern "C" int  find1_##tag(const A* h, const B* n, int a)                { return fu::lfind(*h, *n, a); } \
extern "C" int  find2_##tag(const A* h, const B* n, int a, int b)         { return fu::lfind(*h, *n, a, b); } \
extern "C" bool lmatch_##tag(const A* h, const B* n)                      { return fu::lmatch(*h, *n); } \
extern "C" bool lmatch1_##tag(const A* h, const B* n, int a)              { return fu::lmatch(*h, *n, a); } \
extern "C" bool rmatch_##tag(const A* h, const B* n)                      { return fu::rmatch(*h, *n); } \
extern "C" bool rmatch1_##tag(const A* h, const B* n, int a)              { return fu::rmatch(*h, *n, a); }
FIND(ww, W, W)
FIND(vs, fu::str, fu::strlit)
FIND(vv, fu::str, fu::str)

// ---- decimal text
extern "C" void dec_u64(fu::str* o, uint64_t n)  { new (o) fu::str(fu::u64dec(n)); }
extern "C" void dec_i64(fu::str* o, int64_t n)   { new (o) fu::str(fu::i64dec(n)); }
extern "C" void dec_f64(fu::str* o, double n)    { new (o) fu::str(fu::f64dec(n)); }
extern "C" void dec_f32(fu::str* o, float n)     { new (o) fu::str(fu::f32dec(n)); }
extern "C" void dec_bool(fu::str* o, bool n)     { new (o) fu::str(fu::booldec(n)); }

// ---- string literals and C strings
extern "C" const char* lit_at(const fu::strlit* s, int i)    { return &(*s)[i]; }
extern "C" int  lit_size(const fu::strlit* s)                { return s->size(); }
extern "C" bool lit_bool(const fu::strlit* s)                { return (bool)*s; }
extern "C" const char* lit_data(const fu::strlit* s)         { return s->data(); }
extern "C" void lit_str(fu::str* o, const fu::strlit* s)     { new (o) fu::str(*s); }
extern "C" void lit_make(fu::strlit* o, const char* p, size_t n) { new (o) fu::strlit(operator""_fu(p, n)); }
extern "C" void lit_view(W* o, const char* p, size_t n)      { new (o) W(operator""_view(p, n)); }
extern "C" void cstr_str(fu::str* o, const char* s)          { new (o) fu::str(fu::to_str(s)); }
extern "C" void cstr_view(W* o, const fu::str* b, uintptr_t p, int n)  { new (o) W(fu::cstr2vec_view(*b, p, n)); }
extern "C" void cstr_copy(fu::str* b, uintptr_t p, int n)    { fu::cstr2vec_copy(*b, p, n); }
