#include <cstdint>
#include <utility>
#include <fu/int.h>
#include <fu/vec.h>
#include <fu/vec_range.h>
#include <fu/vec/concat.h>
#include <fu/vec/concat_one.h>
#include <fu/vec/view_assign.h>
#include <fu/vec/view_swap.h>
#include "elems.h"

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

#ifndef NM
#error element class
#endif
typedef T_ T;
typedef fu::vec<T> V;
#include "vec_ops.inc"
