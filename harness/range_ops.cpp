// Entry points of the mutable slice (fu::vec_range_mut), the constant slice (fu::vec_range) and the views, for element
// type T. Every body is a single call into the real headers.
#include <cstdint>
#include <utility>
#include <fu/int.h>
#include <fu/vec.h>
#include <fu/vec_range.h>
#include <fu/view.h>
#include "elems.h"

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define F(name) extern "C" void CAT(NM, name)
#define G(type, name) extern "C" type CAT(NM, name)

typedef T_ T;
typedef fu::vec<T> V;
typedef fu::vec_range_mut<T> RM;
typedef fu::vec_range<T> RC;
typedef fu::view<T> W;
typedef fu::view_mut<T> WM;

// ---- edits through a mutable slice
F(_r_push)(RM* r, T* x)                  { r->push((T&&)*x); }
F(_r_unshift)(RM* r, T* x)               { r->unshift((T&&)*x); }
F(_r_insert)(RM* r, int i, T* x)         { r->insert(i, (T&&)*x); }
F(_r_resize)(RM* r, int n)               { r->resize(n); }
F(_r_resize_junk)(RM* r, int n)          { r->template resize<false>(n); }
F(_r_grow)(RM* r, int n)                 { r->grow(n); }
F(_r_grow_junk)(RM* r, int n)            { r->template grow<false>(n); }
F(_r_shrink)(RM* r, int n)               { r->shrink(n); }
F(_r_clear)(RM* r)                       { r->clear(); }
F(_r_pop)(RM* r)                         { r->pop(); }
F(_r_splice)(RM* r, int i, int d)        { r->splice(i, d); }
F(_r_splice_mv)(RM* r, int i, int d, V* s) { r->splice(i, d, (V&&)*s); s->~V(); }
F(_r_append_mv)(RM* r, int d, V* s)      { r->append(d, (V&&)*s); s->~V(); }
F(_r_append0_mv)(RM* r, V* s)            { r->append(fu_ZERO(), (V&&)*s); s->~V(); }
F(_r_assign_mv)(RM* r, V* s)             { *r = (V&&)*s; s->~V(); }
#if HAS_COPY
F(_r_splice_cp)(RM* r, int i, int d, const T* p, int n) { W w(p, n); r->splice(i, d, w); }
F(_r_append_cp)(RM* r, int d, const T* p, int n)        { W w(p, n); r->append(d, w); }
F(_r_append0_cp)(RM* r, const T* p, int n)              { W w(p, n); r->append(fu_ZERO(), w); }
F(_r_assign_vec)(RM* r, const V* s)      { *r = *s; }
F(_r_assign_rm)(RM* r, const RM* s)      { *r = *s; }
F(_r_assign_rc)(RM* r, const RC* s)      { *r = *s; }
F(_r_to_vec)(V* o, const RM* r)          { new (o) V((V)*r); }
F(_rc_to_vec)(V* o, const RC* r)         { new (o) V((V)*r); }
#endif
F(_r_dmove)(V* o, RM* r)                 { new (o) V(r->destructive_move()); }
F(_r_dmove_def)(V* o, RM* r)             { new (o) V(r->destructive_move_or_default()); }
F(_r_swap_vec)(RM* r, V* w)              { r->swap(*w); }
F(_r_swap_rm)(RM* r, RM* s)              { r->swap(*s); }
F(_r_swap_rmv)(RM* r, RM* s)             { r->swap((RM&&)*s); }
F(_v_swap_rm)(V* v, RM* s)               { v->swap(*s); }

// ---- access through slices
G(int, _r_size)(const RM* r)             { return r->size(); }
G(long, _r_bytesize)(const RM* r)        { return (long)r->bytesize(); }
G(bool, _r_bool)(const RM* r)            { return (bool)*r; }
G(const T*, _r_data)(const RM* r)        { return r->data(); }
G(T*, _r_data_mut)(RM* r)                { return r->data_mut(); }
G(const T*, _r_at)(const RM* r, int i)   { return &(*r)[i]; }
G(T*, _r_mutref)(RM* r, int i)           { return &r->mutref(i); }
G(int, _rc_size)(const RC* r)            { return r->size(); }
G(bool, _rc_bool)(const RC* r)           { return (bool)*r; }
G(const T*, _rc_data)(const RC* r)       { return r->data(); }
G(const T*, _rc_at)(const RC* r, int i)  { return &(*r)[i]; }

// ---- making slices
F(_rm_of_v)(RM* o, V* v)                 { new (o) RM(*v); }
F(_rc_of_v)(RC* o, const V* v)           { new (o) RC(*v); }
F(_rc_of_rm)(RC* o, const RM* v)         { new (o) RC(*v); }
F(_rm_copy)(RM* o, const RM* v)          { new (o) RM(*v); }
F(_rm_ptr)(RM* o, const RM* v)           { o->ptr_reassign(*v); }
F(_rc_ptr)(RC* o, const RC* v)           { o->ptr_reassign(*v); }
F(_rc2)(RC* o, const RC* r, int a, int b)      { new (o) RC(fu::get_range(*r, a, b)); }
F(_rc1)(RC* o, const RC* r, int a)             { new (o) RC(fu::get_range(*r, a)); }
F(_rc0)(RC* o, const RC* r, int b)             { new (o) RC(fu::get_range_start0(*r, b)); }
F(_rcv2)(RC* o, const V* r, int a, int b)      { new (o) RC(fu::get_range(*r, a, b)); }
F(_rcv1)(RC* o, const V* r, int a)             { new (o) RC(fu::get_range(*r, a)); }
F(_rcv0)(RC* o, const V* r, int b)             { new (o) RC(fu::get_range_start0(*r, b)); }
F(_rcm2)(RC* o, const RM* r, int a, int b)     { new (o) RC(fu::get_range(*r, a, b)); }
F(_rcm1)(RC* o, const RM* r, int a)            { new (o) RC(fu::get_range(*r, a)); }
F(_rcm0)(RC* o, const RM* r, int b)            { new (o) RC(fu::get_range_start0(*r, b)); }
F(_rm2)(RM* o, RM* r, int a, int b)            { new (o) RM(fu::get_range_mut(*r, a, b)); }
F(_rm1)(RM* o, RM* r, int a)                   { new (o) RM(fu::get_range_mut(*r, a)); }
F(_rm0)(RM* o, RM* r, int b)                   { new (o) RM(fu::get_range_start0_mut(*r, b)); }
F(_rmv2)(RM* o, V* r, int a, int b)            { new (o) RM(fu::get_range_mut(*r, a, b)); }
F(_rmv1)(RM* o, V* r, int a)                   { new (o) RM(fu::get_range_mut(*r, a)); }
F(_rmv0)(RM* o, V* r, int b)                   { new (o) RM(fu::get_range_start0_mut(*r, b)); }

// ---- views
#define VIEWS(tag, TYPE) \
F(CAT(_w2_, tag))(W* o, const TYPE* r, int a, int b)  { new (o) W(fu::get_view(*r, a, b)); } \
F(CAT(_w1_, tag))(W* o, const TYPE* r, int a)         { new (o) W(fu::get_view(*r, a)); } \
F(CAT(_w0_, tag))(W* o, const TYPE* r, int b)         { new (o) W(fu::get_view_start0(*r, b)); } \
F(CAT(_wof_, tag))(W* o, const TYPE* r)               { new (o) W(*r); }
#define VIEWSM(tag, TYPE) \
F(CAT(_wm2_, tag))(WM* o, TYPE* r, int a, int b)      { new (o) WM(fu::get_view_mut(*r, a, b)); } \
F(CAT(_wm1_, tag))(WM* o, TYPE* r, int a)             { new (o) WM(fu::get_view_mut(*r, a)); } \
F(CAT(_wm0_, tag))(WM* o, TYPE* r, int b)             { new (o) WM(fu::get_view_start0_mut(*r, b)); } \
F(CAT(_wmof_, tag))(WM* o, TYPE* r)                   { new (o) WM(*r); }
VIEWS(v, V)
VIEWS(w, W)
VIEWS(wm, WM)
VIEWS(rc, RC)
VIEWS(rm, RM)
VIEWSM(v, V)
VIEWSM(wm, WM)
VIEWSM(rm, RM)
F(_wmx2)(WM* o, WM* r, int a, int b)     { new (o) WM(fu::get_view_mut((WM&&)*r, a, b)); }
F(_wmx1)(WM* o, WM* r, int a)            { new (o) WM(fu::get_view_mut((WM&&)*r, a)); }
F(_wptr)(W* o, const W* r)               { o->ptr_reassign(*r); }
F(_wmptr)(WM* o, WM* r)                  { o->ptr_reassign(*r); }
G(int, _w_size)(const W* w)              { return w->size(); }
G(bool, _w_bool)(const W* w)             { return (bool)*w; }
G(const T*, _w_data)(const W* w)         { return w->data(); }
G(const T*, _w_begin)(const W* w)        { return w->begin(); }
G(const T*, _w_end)(const W* w)          { return w->end(); }
G(const T*, _w_at)(const W* w, int i)    { return &(*w)[i]; }
G(int, _wm_size)(const WM* w)            { return w->size(); }
G(bool, _wm_bool)(const WM* w)           { return (bool)*w; }
G(const T*, _wm_data)(const WM* w)       { return w->data(); }
G(T*, _wm_data_mut)(WM* w)               { return w->data_mut(); }
G(T*, _wm_begin)(WM* w)                  { return w->begin(); }
G(T*, _wm_end)(WM* w)                    { return w->end(); }
G(const T*, _wm_at)(const WM* w, int i)  { return &(*w)[i]; }
G(T*, _wm_mutref)(WM* w, int i)          { return &w->mutref(i); }

// ---- the same contract at vec level, for the index checks
G(const T*, _v_at)(const V* v, int i)    { return &(*v)[i]; }
G(T*, _v_mutref)(V* v, int i)            { return &v->mutref(i); }

// ---- slices of fixed literals
typedef fu::slate<SLATE, T> SL_;
G(const T*, _s_at)(const SL_* w, int i)    { return &(*w)[i]; }
G(T*, _s_mutref)(SL_* w, int i)            { return &w->mutref(i); }
G(int, _s_size)(const SL_* w)              { return w->size(); }
G(bool, _s_bool)(const SL_* w)             { return (bool)*w; }
G(const T*, _s_data)(const SL_* w)         { return w->data(); }
G(T*, _s_data_mut)(SL_* w)                 { return w->data_mut(); }
VIEWS(s, SL_)
VIEWSM(s, SL_)

// ---- copying slices
#if HAS_COPY
F(_slice2)(V* o, const V* v, int a, int b)     { new (o) V(fu::slice(*v, a, b)); }
F(_slice1)(V* o, const V* v, int a)            { new (o) V(fu::slice(*v, a)); }
F(_substr)(V* o, const V* v, int a, int b)     { new (o) V(fu::substr(*v, a, b)); }
#endif
F(_slicem2)(V* o, V* v, int a, int b)          { new (o) V(fu::slice((V&&)*v, a, b)); v->~V(); }
F(_slicem1)(V* o, V* v, int a)                 { new (o) V(fu::slice((V&&)*v, a)); v->~V(); }
F(_substrm)(V* o, V* v, int a, int b)          { new (o) V(fu::substr((V&&)*v, a, b)); v->~V(); }
F(_vmut)(WM* o, V* v)                          { new (o) WM(v->mut()); }

// ---- reinterpreting plain data
#ifdef DEST_
typedef DEST_ D;
F(_into)(fu::view<D>* o, const W* w)           { new (o) fu::view<D>(fu::into_view<D>(*w)); }
F(_into_v)(fu::view<D>* o, const V* w)         { new (o) fu::view<D>(fu::view_of<D>(*w)); }
F(_into_m)(fu::view_mut<D>* o, WM* w)          { new (o) fu::view_mut<D>(fu::into_view_mut<D>(*w)); }
F(_into_vm)(fu::view_mut<D>* o, V* w)          { new (o) fu::view_mut<D>(fu::view_of_mut<D>(*w)); }
#endif
