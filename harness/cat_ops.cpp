// Entry points of concatenation (operator+, operator+= of concat.h and concat_one.h), of array literals, and of the
// assignments of an array from a slice, for items of type T. Every body is a single expression on the real headers; operands
// that are given away are destroyed afterwards, as the caller does. All functions get (result, left, right).
#include <cstdint>
#include <utility>
#include <fu/int.h>
#include <fu/str.h>
#include <fu/vec.h>
#include <fu/vec_range.h>
#include <fu/view.h>
#include <fu/vec/concat.h>
#include <fu/vec/concat_one.h>
#include "elems.h"

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

typedef T_ T;
typedef fu::vec<T> V;
typedef fu::vec_range_mut<T> RM;
typedef fu::vec_range<T> RC;
typedef fu::view<T> W;
typedef fu::view_mut<T> WM;
typedef fu::slate<SLATE, T> SL;
#ifndef REG
#define REG(name)   // the replay driver collects the entry points here
#endif
#if STRLIT
typedef fu::strlit LI;
#endif

// operand forms: v array, V array given away, w view, m mutable view, rc slice, rm mutable slice, s fixed literal, l string literal,
// x an item given away
#define T_v const V
#define T_V V
#define T_w const W
#define T_m const WM
#define T_rc const RC
#define T_rm const RM
#define T_s const SL
#define T_l const LI
#define T_x T
#define E_v(p) (*p)
#define E_V(p) ((V&&)*p)
#define E_w(p) (*p)
#define E_m(p) (*p)
#define E_rc(p) (*p)
#define E_rm(p) (*p)
#define E_s(p) (*p)
#define E_l(p) (*p)
#define E_x(p) ((T&&)*p)
#define D_v(p)
#define D_V(p) p->~V();
#define D_w(p)
#define D_m(p)
#define D_rc(p)
#define D_rm(p)
#define D_s(p)
#define D_l(p)
#define D_x(p)
#define P(a, b) extern "C" void CAT(NM, _cat_##a##_##b)(V* o, T_##a* x, T_##b* y) { new (o) V(E_##a(x) + E_##b(y)); D_##a(x) D_##b(y) } REG(_cat_##a##_##b)
// in place: v array, rm mutable slice, rmv mutable slice as a temporary
#define Q(b) extern "C" void CAT(NM, _add_v_##b)(V* a, T_##b* y)    { *a += E_##b(y); D_##b(y) } REG(_add_v_##b) \
             extern "C" void CAT(NM, _add_rm_##b)(RM* a, T_##b* y)  { *a += E_##b(y); D_##b(y) } REG(_add_rm_##b) \
             extern "C" void CAT(NM, _add_rmv_##b)(RM* a, T_##b* y) { (RM&&)*a += E_##b(y); D_##b(y) } REG(_add_rmv_##b)

P(V, V) P(V, x) P(x, V)
Q(V) Q(x)
#if HAS_COPY
P(V, v) P(V, w) P(V, rc) P(V, rm) P(V, s)
P(v, V) P(w, V) P(rc, V) P(rm, V) P(s, V)
P(v, v) P(v, w) P(v, rc) P(v, s) P(w, v) P(rc, v) P(s, v)
P(w, w) P(w, rc) P(rc, w) P(rm, w) P(rc, rm) P(m, w) P(w, s) P(s, w)
P(v, x) P(w, x) P(rc, x) P(rm, x) P(s, x) P(x, v) P(x, w) P(x, rc) P(x, rm) P(x, s)
Q(v) Q(w) Q(rc) Q(rm) Q(s)
#if STRLIT
P(V, l) P(l, V) P(v, l) P(l, v) P(l, w) P(l, l) P(l, x) P(x, l)
Q(l)
#endif
// an array assigned or made from a slice
extern "C" void CAT(NM, _set_v_rc)(V* a, const RC* y)   { *a = *y; } REG(_set_v_rc)
extern "C" void CAT(NM, _set_v_rm)(V* a, const RM* y)   { *a = *y; } REG(_set_v_rm)
#endif
// array literals
extern "C" void CAT(NM, _lit)(V* o, SL* s)              { new (o) V((SL&&)*s); } REG(_lit)
extern "C" void CAT(NM, _lit_c)(V* o, T (*s)[SLATE])    { new (o) V((T(&&)[SLATE])*s); } REG(_lit_c)
