// Slices, views and access: one operation of the real code from a described pre-state against a std::vector oracle.
// parameters p[0..7]: position, count, length, source offset, L, R, L2, R2
struct Trim { int L, R, w; };
static Trim trim(int n, int L, int R) {
    L = cl(L < 0 ? -L : L, 0, n);
    R = cl(R < 0 ? -R : R, 0, n - L);
    return { L, R, n - L - R };
}
template <class X> static X* mkrange(const V* v, Trim t) {
    X* r = (X*) malloc(sizeof(X));
    new (r) X();
    r->m_vec = (decltype(r->m_vec)) v;
    r->m_trim = (unsigned)t.L | ((u64)(unsigned)t.R << 32);
    return r;
}
template <class X> static void samerange(X* r, const V* v, Trim t, const char* msg = "the slice was changed by an edit") {
    if (r->m_vec != v || r->m_trim != ((unsigned)t.L | ((u64)(unsigned)t.R << 32))) fail(msg);
}
static S mid3(const S& s, Trim t, const S& m) { return cat(cat(sub(s, 0, t.L), m), sub(s, t.L + t.w, t.R)); }

struct Part { const T* base; int n; };
static void viewis(const T* q, int n, const T* base, int size, int a, int b, const char* msg) {
    if (n != b - a || (n && q != base + a) || (!n && (q < base || q > base + size))) fail(msg);
}

static int runrange(const char* op, const int* k, const int* n, const int* c, const int* p) {
    FAILURE[0] = 0;
    S s, t;
    Arr a = { nullptr, 0, {} }, b = a;
    V* v = build(k[0], n[0], c[0], nullptr, &s);
    if (FAILURE[0]) return 1;
    int N = s.size();
    Trim z = trim(N, p[4], p[5]);
    const char* ends = op + strlen(op);
    auto suf = [&](const char* x) { return strlen(op) >= strlen(x) && !strcmp(ends - strlen(x), x); };
    bool two = IS("r_splice_mv") || IS("r_append_mv") || IS("r_append0_mv") || IS("r_assign_mv") || IS("r_assign_vec") || IS("r_assign_rm")
            || IS("r_assign_rc") || IS("r_swap_vec") || IS("r_swap_rm") || IS("r_swap_rmv") || IS("v_swap_rm");
    V* w = two ? build(k[1], n[1], c[1], v, &t) : nullptr;
    int M = t.size();
    Trim y = trim(M, p[6], p[7]);
    RM* r = mkrange<RM>(v, z);
    int i = cl(p[0], 0, z.w), d = cl(p[1], 0, z.w - i), e = cl(p[1], 0, z.w), m = p[2] < 0 ? -p[2] : p[2];
    S in = sub(s, z.L, z.w);
    alignas(T) char xb[sizeof(T)];
    T* x = (T*) xb;
    u64 xv = 0;
    bool one = IS("r_push") || IS("r_unshift") || IS("r_insert");
    if (one) { xv = nextval(); Tr<T>::make(x, xv); }
    bool keep = true;
    S ins1 = cat(cat(sub(in, 0, i), t), sub(in, i + d, z.w - i - d));

    if (IS("r_push")) { C(_r_push)(r, x); expect(v, mid3(s, z, cat(in, { xv }))); }
    else if (IS("r_unshift")) { C(_r_unshift)(r, x); expect(v, mid3(s, z, cat({ xv }, in))); }
    else if (IS("r_insert")) { C(_r_insert)(r, p[0], x); expect(v, mid3(s, z, cat(cat(sub(in, 0, i), { xv }), sub(in, i, z.w - i)))); }
    else if (IS("r_resize") || IS("r_resize_junk") || IS("r_grow") || IS("r_grow_junk") || IS("r_shrink") || IS("r_shrink_neg")) {
        int q = p[0] < 0 ? -p[0] : p[0];
        if (IS("r_shrink_neg")) q = -1 - q;
        bool junk = IS("r_resize_junk") || IS("r_grow_junk");
        if (IS("r_resize")) C(_r_resize)(r, q); else if (IS("r_resize_junk")) C(_r_resize_junk)(r, q);
        else if (IS("r_grow")) C(_r_grow)(r, q); else if (IS("r_grow_junk")) C(_r_grow_junk)(r, q); else C(_r_shrink)(r, q);
        S o = in;
        if (q < 0) q = 0;
        if (q < z.w && !IS("r_grow") && !IS("r_grow_junk")) o = sub(in, 0, q);
        if (q > z.w && !suf("shrink")) while ((int) o.size() < q) o.push_back(0);
        if (junk && q > z.w && V::TRIVIAL) {
            if (v->size() != z.L + q + z.R) fail("size after resizing a slice");
            else for (int j = z.w; j < q; j++) o[j] = Tr<T>::val(v->data() + z.L + j);
        }
        expect(v, mid3(s, z, o));
    }
    else if (IS("r_clear")) { C(_r_clear)(r); expect(v, mid3(s, z, {})); }
    else if (IS("r_pop")) { C(_r_pop)(r); expect(v, mid3(s, z, sub(in, 0, z.w ? z.w - 1 : 0))); }
    else if (IS("r_splice")) { C(_r_splice)(r, p[0], p[1]); expect(v, mid3(s, z, cat(sub(in, 0, i), sub(in, i + d, z.w - i - d)))); }
    else if (IS("r_splice_mv")) { unhold(w); C(_r_splice_mv)(r, p[0], p[1], w); free(w); expect(v, mid3(s, z, ins1)); }
    else if (IS("r_append_mv")) { unhold(w); C(_r_append_mv)(r, p[1], w); free(w); expect(v, mid3(s, z, cat(sub(in, 0, z.w - e), t))); }
    else if (IS("r_append0_mv")) { unhold(w); C(_r_append0_mv)(r, w); free(w); expect(v, mid3(s, z, cat(in, t))); }
    else if (IS("r_assign_mv")) { unhold(w); C(_r_assign_mv)(r, w); free(w); expect(v, mid3(s, z, t)); }
    else if (IS("r_dmove") || IS("r_dmove_def")) {
        V* o = raw();
        unhold(v);
        if (IS("r_dmove")) C(_r_dmove)(o, r); else C(_r_dmove_def)(o, r);
        expect(o, in);
        free(v);
        keep = false;
    }
    else if (IS("r_swap_vec")) { C(_r_swap_vec)(r, w); expect(v, mid3(s, z, t)); expect(w, in); }
    else if (IS("v_swap_rm")) { C(_v_swap_rm)(w, r); expect(v, mid3(s, z, t)); expect(w, in); }
    else if (IS("r_swap_rm") || IS("r_swap_rmv")) {
        RM* q = mkrange<RM>(w, y);
        if (IS("r_swap_rm")) C(_r_swap_rm)(r, q); else C(_r_swap_rmv)(r, q);
        samerange(q, w, y);
        free(q);
        expect(v, mid3(s, z, sub(t, y.L, y.w)));
        expect(w, mid3(t, y, in));
    }
#if HAS_COPY
    else if (IS("r_splice_cp") || IS("r_append_cp") || IS("r_append0_cp")) {
        const T* q; S u;
        if (k[1]) { int o = cl(p[3], 0, N); m = cl(m, 0, N - o); q = v->data() + o; u = sub(s, o, m); }
        else { a = arr(m); q = a.p; u = a.s; }
        if (IS("r_splice_cp")) { C(_r_splice_cp)(r, p[0], p[1], q, m); expect(v, mid3(s, z, cat(cat(sub(in, 0, i), u), sub(in, i + d, z.w - i - d)))); }
        else if (IS("r_append_cp")) { C(_r_append_cp)(r, p[1], q, m); expect(v, mid3(s, z, cat(sub(in, 0, z.w - e), u))); }
        else { C(_r_append0_cp)(r, q, m); expect(v, mid3(s, z, cat(in, u))); }
    }
    else if (IS("r_assign_vec")) { C(_r_assign_vec)(r, w); expect(v, mid3(s, z, t)); }
    else if (IS("r_assign_rm")) { RM* q = mkrange<RM>(w, y); C(_r_assign_rm)(r, q); expect(v, mid3(s, z, sub(t, y.L, y.w))); samerange(q, w, y); free(q); }
    else if (IS("r_assign_rc")) { RC* q = mkrange<RC>(w, y); C(_r_assign_rc)(r, q); expect(v, mid3(s, z, sub(t, y.L, y.w))); samerange(q, w, y); free(q); }
    else if (IS("r_assign_rm_self") || IS("r_assign_rc_self")) {
        Trim y2 = trim(N, p[6], p[7]);
        RM* q = mkrange<RM>(v, y2);
        if (IS("r_assign_rm_self")) C(_r_assign_rm)(r, q); else C(_r_assign_rc)(r, (RC*) q);
        expect(v, mid3(s, z, sub(s, y2.L, y2.w)));
        free(q);
    }
    else if (IS("r_to_vec")) { V* o = raw(); C(_r_to_vec)(o, r); expect(o, in); }
    else if (IS("rc_to_vec")) { V* o = raw(); C(_rc_to_vec)(o, (RC*) r); expect(o, in); }
    else if (IS("slice2") || IS("slice1") || IS("substr")) {
        V* o = raw();
        int st = p[0], en = p[1] < 0 ? -p[1] : p[1];
        if (IS("substr")) { st = st < 0 ? -st : st; }
        if (IS("slice2")) C(_slice2)(o, v, st, en); else if (IS("slice1")) C(_slice1)(o, v, st); else C(_substr)(o, v, st, en);
        int E2 = IS("slice2") ? en : IS("slice1") ? N : st + en;
        int B = cl(E2, 0, N), A = cl(st, 0, B);
        expect(o, sub(s, A, B - A));
    }
#endif
    else if (IS("slicem2") || IS("slicem1") || IS("substrm")) {
        V* o = raw();
        int st = p[0], en = p[1] < 0 ? -p[1] : p[1];
        if (IS("substrm")) { st = st < 0 ? -st : st; }
        unhold(v);
        if (IS("slicem2")) C(_slicem2)(o, v, st, en); else if (IS("slicem1")) C(_slicem1)(o, v, st); else C(_substrm)(o, v, st, en);
        int E2 = IS("slicem2") ? en : IS("slicem1") ? N : st + en;
        int B = cl(E2, 0, N), A = cl(st, 0, B);
        expect(o, sub(s, A, B - A));
        free(v);
        keep = false;
    }
    // ---- access
    else if (suf("_at") || suf("_mutref") || suf("_size") || suf("_bool") || suf("_data") || suf("_data_mut") || suf("_begin") || suf("_end") || suf("_bytesize")) {
        static T* lit = nullptr;
        a = arr(m); b = arr(SLATE);
        W* cw = new W(a.p, m); WM* cm = new WM(a.p, m);
        S* dummy = nullptr; (void) dummy;
        typedef fu::slate<SLATE, T> SL;
        SL* sl = (SL*) b.p;
        RC* rc = mkrange<RC>(v, z);
        int idx = p[0];
        if (p[1] % 7 == 0) idx += 1 << 30;
        if (p[1] % 11 == 0) idx = -2147483647 - 1 + (p[0] < 0 ? -p[0] : p[0]);
        const T* got = nullptr; long num = -1; const T* base; int size;
        bool isv = !strncmp(op, "v_", 2), isr = !strncmp(op, "r_", 2), isrc = !strncmp(op, "rc_", 3), isw = !strncmp(op, "w_", 2), iss = !strncmp(op, "s_", 2);
        // the call first: it may move the items
#define ACC(name, call) if (IS(#name)) { call; }
        ACC(v_at, got = C(_v_at)(v, idx)) ACC(v_mutref, got = C(_v_mutref)(v, idx))
        ACC(r_at, got = C(_r_at)(r, idx)) ACC(r_mutref, got = C(_r_mutref)(r, idx))
        ACC(rc_at, got = C(_rc_at)(rc, idx)) ACC(w_at, got = C(_w_at)(cw, idx)) ACC(wm_at, got = C(_wm_at)(cm, idx)) ACC(wm_mutref, got = C(_wm_mutref)(cm, idx))
        ACC(s_at, got = C(_s_at)(sl, idx)) ACC(s_mutref, got = C(_s_mutref)(sl, idx))
        ACC(r_size, num = C(_r_size)(r)) ACC(rc_size, num = C(_rc_size)(rc)) ACC(w_size, num = C(_w_size)(cw)) ACC(wm_size, num = C(_wm_size)(cm)) ACC(s_size, num = C(_s_size)(sl))
        ACC(r_bool, num = C(_r_bool)(r)) ACC(rc_bool, num = C(_rc_bool)(rc)) ACC(w_bool, num = C(_w_bool)(cw)) ACC(wm_bool, num = C(_wm_bool)(cm)) ACC(s_bool, num = C(_s_bool)(sl))
        ACC(r_bytesize, num = C(_r_bytesize)(r))
        ACC(r_data, got = C(_r_data)(r)) ACC(rc_data, got = C(_rc_data)(rc)) ACC(w_data, got = C(_w_data)(cw)) ACC(wm_data, got = C(_wm_data)(cm)) ACC(s_data, got = C(_s_data)(sl))
        ACC(r_data_mut, got = C(_r_data_mut)(r)) ACC(wm_data_mut, got = C(_wm_data_mut)(cm)) ACC(s_data_mut, got = C(_s_data_mut)(sl))
        ACC(w_begin, got = C(_w_begin)(cw)) ACC(wm_begin, got = C(_wm_begin)(cm)) ACC(w_end, got = C(_w_end)(cw)) ACC(wm_end, got = C(_wm_end)(cm))
        base = isv ? v->data() : isr || isrc ? v->data() + z.L : iss ? b.p : a.p;
        size = isv ? N : isr || isrc ? z.w : iss ? SLATE : m;
        if (suf("_at") || suf("_mutref")) {
            bool ok = idx >= 0 && idx < size;
            if (got != (ok ? base + idx : (T*) 1)) fail(ok ? "an index in range selects another item" : "an index out of range is not trapped");
            if ((IS("v_mutref") || IS("r_mutref")) && v->capa() < 0) fail("mutable access to a shared array");
        }
        else if (suf("_size")) { if (num != size) fail("size()"); }
        else if (suf("_bytesize")) { if (num != size * (long) sizeof(T)) fail("bytesize()"); }
        else if (suf("_bool")) { if (num != (size != 0)) fail("operator bool"); }
        else if (suf("_end")) { if (size && got != base + size) fail("end()"); }
        else if (size && got != base) fail("data()");
        delete cw; delete cm; free(rc); (void) isw; (void) lit;
    }
    // ---- views and slices of parts
    else {
        a = arr(m); b = arr(SLATE);
        W* cw = new W(a.p, m); WM* cm = new WM(a.p, m);
        typedef fu::slate<SLATE, T> SL;
        SL* sl = (SL*) b.p;
        RC* rc = mkrange<RC>(v, z);
        int A0 = p[0], B0 = p[1];
        if (p[2] % 7 == 0) A0 += 1 << 30;
        if (p[3] % 7 == 0) B0 += 1 << 30;
        if (p[3] % 11 == 0) B0 = -2147483647 - 1 + (p[1] < 0 ? -p[1] : p[1]);
        W ow(nullptr, 0); WM om(nullptr, 0); RC oc; RM orr;
        int res = 0; // 1 view 2 view_mut 3 range
        int form = -1; char src = 0;
#define TAKEW(f, tag, obj, S_) \
        if (IS("w2_" #tag)) { C(CAT(_w2_, tag))(&ow, obj, A0, B0); res = 1; form = 2; src = S_; } \
        if (IS("w1_" #tag)) { C(CAT(_w1_, tag))(&ow, obj, A0); res = 1; form = 1; src = S_; } \
        if (IS("w0_" #tag)) { C(CAT(_w0_, tag))(&ow, obj, B0); res = 1; form = 0; src = S_; } \
        if (IS("wof_" #tag)) { C(CAT(_wof_, tag))(&ow, obj); res = 1; form = 3; src = S_; }
#define TAKEM(f, tag, obj, S_) \
        if (IS("wm2_" #tag)) { C(CAT(_wm2_, tag))(&om, obj, A0, B0); res = 2; form = 2; src = S_; } \
        if (IS("wm1_" #tag)) { C(CAT(_wm1_, tag))(&om, obj, A0); res = 2; form = 1; src = S_; } \
        if (IS("wm0_" #tag)) { C(CAT(_wm0_, tag))(&om, obj, B0); res = 2; form = 0; src = S_; } \
        if (IS("wmof_" #tag)) { C(CAT(_wmof_, tag))(&om, obj); res = 2; form = 3; src = S_; }
        TAKEW(0, v, v, 'v') TAKEW(0, w, cw, 'w') TAKEW(0, wm, cm, 'w') TAKEW(0, rc, rc, 'r') TAKEW(0, rm, r, 'r') TAKEW(0, s, sl, 's')
        TAKEM(0, v, v, 'v') TAKEM(0, wm, cm, 'w') TAKEM(0, rm, r, 'r') TAKEM(0, s, sl, 's')
        if (IS("wmx2")) { C(_wmx2)(&om, cm, A0, B0); res = 2; form = 2; src = 'w'; }
        if (IS("wmx1")) { C(_wmx1)(&om, cm, A0); res = 2; form = 1; src = 'w'; }
        if (IS("wptr")) { C(_wptr)(&ow, cw); res = 1; form = 3; src = 'w'; }
        if (IS("wmptr")) { C(_wmptr)(&om, cm); res = 2; form = 3; src = 'w'; }
        if (IS("vmut")) { C(_vmut)(&om, v); res = 2; form = 3; src = 'v'; }
#define RNG3(name, out, obj, S_) \
        if (IS(#name "2")) { C(_##name##2)(out, obj, A0, B0); res = 3; form = 2; src = S_; } \
        if (IS(#name "1")) { C(_##name##1)(out, obj, A0); res = 3; form = 1; src = S_; } \
        if (IS(#name "0")) { C(_##name##0)(out, obj, B0); res = 3; form = 0; src = S_; }
        RM* pr = &orr; RC* pc = &oc;
        RNG3(rc, pc, rc, 'r') RNG3(rcv, pc, v, 'v') RNG3(rcm, pc, r, 'r') RNG3(rm, pr, r, 'r') RNG3(rmv, pr, v, 'v')
#define RNG1(name, out, obj, S_) if (IS(#name)) { C(_##name)(out, obj); res = 3; form = 3; src = S_; }
        RNG1(rm_of_v, pr, v, 'v') RNG1(rc_of_v, pc, v, 'v') RNG1(rc_of_rm, pc, r, 'r') RNG1(rm_copy, pr, r, 'r') RNG1(rm_ptr, pr, r, 'r') RNG1(rc_ptr, pc, rc, 'r')
#ifdef DEST_
        if (!strncmp(op, "into", 4)) {
            fu::view<D> dw(nullptr, 0); fu::view_mut<D> dm(nullptr, 0);
            bool fv = IS("into_v") || IS("into_vm");
            size_t bytes = sizeof(T) * (fv ? N : m);
            if (bytes % sizeof(D) == 0) {
                const void* q; long dn;
                if (IS("into")) { C(_into)(&dw, cw); q = dw.m_data; dn = dw.m_size; }
                else if (IS("into_v")) { C(_into_v)(&dw, v); q = dw.m_data; dn = dw.m_size; }
                else if (IS("into_m")) { C(_into_m)(&dm, cm); q = dm.m_data; dn = dm.m_size; }
                else { C(_into_vm)(&dm, v); q = dm.m_data; dn = dm.m_size; }
                const void* base = fv ? (const void*) v->data() : (const void*) a.p;
                if (dn * (long) sizeof(D) != (long) bytes || (dn && q != base)) fail("the reinterpreted view covers other bytes");
            }
            delete cw; delete cm; free(rc); free(r);
            return endcase(a, b);
        }
#endif
        if (!res) { printf("unknown op %s\n", op); return 2; }
        const T* base = src == 'v' ? v->data() : src == 'r' ? v->data() + z.L : src == 's' ? b.p : a.p;
        int size = src == 'v' ? N : src == 'r' ? z.w : src == 's' ? SLATE : m;
        int B = form == 2 || form == 0 ? cl(B0, 0, size) : size, A = form == 2 || form == 1 ? cl(A0, 0, B) : 0;
        if (res == 1) viewis(ow.m_data, ow.m_size, base, size, A, B, "the view covers other items");
        if (res == 2) viewis(om.m_data, om.m_size, base, size, A, B, "the view covers other items");
        if (res == 3) {
            Trim o = { (src == 'r' ? z.L : 0) + A, (src == 'r' ? z.R : 0) + size - B, B - A };
            if (!strncmp(op, "rc", 2)) samerange(pc, v, o, "the slice covers other items"); else samerange(pr, v, o, "the slice covers other items");
        }
        delete cw; delete cm; free(rc);
    }
    if (one) x->~T();
    if (keep) samerange(r, v, z);
    free(r);
    return endcase(a, b);
}
