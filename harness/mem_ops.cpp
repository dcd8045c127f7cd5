// Entry points of swapping and assigning views. Every body is a single call into the real code.
#define ELT_ASSIGN 1
#include <cstdint>
#include <cstring>
#include <utility>
#include <fu/int.h>
#include <fu/vec.h>
#include <fu/vec_range.h>
#include <fu/view.h>
#include <fu/vec/view_assign.h>
#include <fu/vec/view_swap.h>
#include "elems.h"

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define F(name) extern "C" void CAT(NM, name)

typedef T_ T;
typedef fu::vec<T> V;
typedef fu::vec_range_mut<T> RM;
typedef fu::vec_range<T> RC;
typedef fu::view<T> W;
typedef fu::view_mut<T> WM;
typedef fu::slate<SLATE, T> SL;

F(_vswap_v)(V* a, int i, int j)       { fu::view_swap(*a, i, j); }
F(_vswap_rm)(RM* a, int i, int j)     { fu::view_swap(*a, i, j); }
F(_vswap_m)(WM* a, int i, int j)      { fu::view_swap(*a, i, j); }
F(_vswap_s)(SL* a, int i, int j)       { fu::view_swap(*a, i, j); }

#ifdef FROM_
typedef FROM_ U;
F(_vset_m_w)(WM* a, const fu::view<U>* b)          { fu::view_assign(*a, *b); }
F(_vset_mv_w)(WM* a, const fu::view<U>* b)         { fu::view_assign((WM&&)*a, *b); }
F(_vset_m_v)(WM* a, const fu::vec<U>* b)           { fu::view_assign(*a, *b); }
F(_vset_m_rc)(WM* a, const fu::vec_range<U>* b)    { fu::view_assign(*a, *b); }
F(_vset_v_w)(V* a, const fu::view<U>* b)           { fu::view_assign(*a, *b); }
F(_vset_rm_w)(RM* a, const fu::view<U>* b)         { fu::view_assign(*a, *b); }
F(_vset_s_w)(SL* a, const fu::view<U>* b)           { fu::view_assign(*a, *b); }
F(_vset_m_s)(WM* a, const fu::slate<SLATE, U>* b)  { fu::view_assign(*a, *b); }
#endif
