// Entry points, one per runtime operation, for element type T (vector V = fu::vec<T>).
// Every body is a single call into the real header; the verifier executes the real template instantiation.
#define F(name) extern "C" void CAT(NM, name)

// construction, moving, destruction
F(_dtor)(V* v)                       { v->~V(); }
F(_ctor)(V* v)                       { new (v) V(); }
F(_move_ctor)(V* v, V* w)            { new (v) V((V&&)*w); w->~V(); }
F(_move_assign)(V* v, V* w)          { *v = (V&&)*w; w->~V(); }
F(_swap)(V* v, V* w)                 { v->swap(*w); }
F(_dmove)(V* v, V* w)                { new (v) V(w->destructive_move()); w->~V(); }
F(_dmove_def)(V* v, V* w)            { new (v) V(w->destructive_move_or_default()); w->~V(); }
#if HAS_COPY
F(_copy_ctor)(V* v, const V* w)      { new (v) V(*w); }
F(_copy_assign)(V* v, const V* w)    { *v = *w; }
#endif

// accessors
extern "C" int         CAT(NM, _size)(const V* v)     { return v->size(); }
extern "C" long        CAT(NM, _bytesize)(const V* v) { return (long)v->bytesize(); }
extern "C" bool        CAT(NM, _bool)(const V* v)     { return (bool)*v; }
extern "C" const T*    CAT(NM, _data)(const V* v)     { return v->data(); }
extern "C" int         CAT(NM, _capa)(const V* v)     { return v->capa(); }
extern "C" const T*    CAT(NM, _begin)(const V* v)    { return v->begin(); }
extern "C" const T*    CAT(NM, _end)(const V* v)      { return v->end(); }
extern "C" const T*    CAT(NM, _at)(const V* v, int i){ return &(*v)[i]; }
extern "C" T*          CAT(NM, _mutref)(V* v, int i)  { return &v->mutref(i); }
extern "C" T*          CAT(NM, _data_mut)(V* v)       { return v->data_mut(); }

// single elements
F(_push)(V* v, T* x)                 { v->push((T&&)*x); }
F(_unshift)(V* v, T* x)              { v->unshift((T&&)*x); }
F(_insert)(V* v, int i, T* x)        { v->insert(i, (T&&)*x); }
F(_pop)(V* v)                        { v->pop(); }
F(_shift1)(V* v)                     { v->shift(); }
F(_shift)(V* v, int n)               { v->shift(n); }
F(_shift_pop)(V* v, int a, int b)    { v->shift_pop(a, b); }

// sizes
F(_resize)(V* v, int n)              { v->resize(n); }
F(_resize_junk)(V* v, int n)         { v->template resize<false>(n); }
F(_grow)(V* v, int n)                { v->grow(n); }
F(_grow_junk)(V* v, int n)           { v->template grow<false>(n); }
F(_shrink)(V* v, int n)              { v->shrink(n); }
F(_clear)(V* v)                      { v->clear(); }
F(_reserve)(V* v, int n)             { v->reserve(n); }
F(_reserve0)(V* v)                   { v->reserve(); }

// splices and appends
F(_splice)(V* v, int i, int d)                       { v->splice(i, d); }
F(_splice_empty)(V* v, int i, int d, int n)          { v->splice_empty(i, d, n); }
F(_splice_mv)(V* v, int i, int d, V* s)              { v->splice(i, d, (V&&)*s); s->~V(); }
F(_append_mv)(V* v, int d, V* s)                     { v->append(d, (V&&)*s); s->~V(); }
F(_append0_mv)(V* v, V* s)                           { v->append(fu_ZERO(), (V&&)*s); s->~V(); }
#if HAS_COPY
F(_splice_cp)(V* v, int i, int d, const T* p, int n) { v->splice_copy(i, d, p, n); }
F(_append_cp)(V* v, int d, const T* p, int n)        { v->append_copy(d, p, n); }
F(_append0_cp)(V* v, const T* p, int n)              { v->append_copy(fu_ZERO(), p, n); }
F(_splice_vec)(V* v, int i, int d, const V* s)       { v->splice(i, d, *s); }
F(_append_vec)(V* v, int d, const V* s)              { v->append(d, *s); }
F(_init_copy)(V* v, const T* p, int n)               { new (v) V(); v->UNSAFE__init_copy(p, n); }
F(_init_copy2)(V* v, const T* p, int n, const T* q, int m) { new (v) V(); v->UNSAFE__init_copy(p, n, q, m); }
#endif
F(_init_move)(V* v, T* p, int n)                     { new (v) V(); v->UNSAFE__init_move(p, n); }
