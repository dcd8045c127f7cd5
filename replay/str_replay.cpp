// searches for inputs on which the real comparison, search, decimal text or literal code breaks its contract
//   str_replay search SECONDS SEED GROUP | case NUMBER GROUP      GROUP: cmp, find, dec, lit
#include <string>
#include <vector>
#include <random>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cinttypes>
#include <cstdarg>
#include <limits>
#include <cmath>
#include "../harness/str_ops.cpp"
#include "alloc_model.h"

typedef std::mt19937_64 Rng;
static char WHY[400];
static bool bad(const char* f, ...) {
    va_list ap; va_start(ap, f); vsnprintf(WHY, sizeof WHY, f, ap); va_end(ap);
    return false;
}
static int upto(Rng& r, int n) { return n <= 0 ? 0 : int(r() % (unsigned(n) + 1)); }
static int len(Rng& r) {
    switch (r() % 8) { case 0: return 0; case 1: return upto(r, 3); case 2: case 3: case 4: return upto(r, 20);
                       case 5: case 6: return upto(r, 70); default: return upto(r, 600); }
}

template <typename T> static T item(Rng& r, int style) {
    T t; memset((void*)&t, 0, sizeof t);
    unsigned char* p = (unsigned char*)&t;
    if (style == 0) for (size_t i = 0; i < sizeof t; i++) p[i] = (unsigned char)r();
    else p[style == 1 ? 0 : r() % sizeof t] = (unsigned char)(style == 1 ? 'a' + r() % 2 : r() % 2 ? 0x81 : 1);
    return t;
}
// a sequence in one of the ways one can be stored; raw memory is exactly as long as the items
template <typename T> struct Seq {
    std::vector<T> ref;
    fu::vec<T> v, other;
    T* raw = nullptr;
    ~Seq() { free(raw); }
    void fill(Rng& r, int n, int style) { for (int i = 0; i < n; i++) ref.push_back(item<T>(r, style)); }
    void vec(Rng& r) {
        int st = int(r() % 4);
        if (st == 1) v.reserve(int(ref.size()) + upto(r, 40));
        if (ref.size()) v.append_copy(fu_ZERO(), ref.data(), int(ref.size()));
        if (st == 2) other = v;
        if (st == 3) { v.push(item<T>(r, 0)); other = v; v.pop(); }
    }
    void mem() {
        raw = (T*)malloc(ref.size() * sizeof(T) + !ref.size());
        if (ref.size()) memcpy((void*)raw, (const void*)ref.data(), ref.size() * sizeof(T));
    }
    void mutate(Rng& r, const std::vector<T>& from) {
        ref = from;
        int k = int(r() % 6);
        if (k == 0) { if (ref.size()) ref.pop_back(); }
        else if (k == 1) ref.push_back(item<T>(r, int(r() % 3)));
        else if (k == 2 && ref.size()) ((unsigned char*)&ref.back())[r() % sizeof(T)] ^= (unsigned char)(1u << r() % 8);
        else if (k == 3 && ref.size()) ((unsigned char*)&ref[r() % ref.size()])[r() % sizeof(T)] ^= (unsigned char)(1u << r() % 8);
        else if (k == 4) { ref.clear(); fill(r, len(r), int(r() % 3)); }
    }
};
template <typename T> static int refcmp(const std::vector<T>& a, const std::vector<T>& b) {
    size_t n = a.size() < b.size() ? a.size() : b.size();
    for (size_t i = 0; i < n; i++) {
        int c = memcmp(&a[i], &b[i], sizeof(T));
        if (c) return c < 0 ? -1 : 1;
    }
    return a.size() < b.size() ? -1 : a.size() > b.size();
}

#define EQCK(NM, tag, X, Y) do { bool e = NM##_eq_##tag(&X, &Y), n = NM##_ne_##tag(&X, &Y); \
    if (e != (c == 0) || n != (c != 0)) return bad(#NM " " #tag ": %zu and %zu items, %s, compared %s/%s", a.ref.size(), b.ref.size(), \
        c ? "different" : "equal", e ? "equal" : "different", n ? "not equal" : "not different"); } while (0)
#define ORDCK(tag, X, Y) do { bool lt = ord_lt_##tag(&X, &Y), gt = ord_gt_##tag(&X, &Y), le = ord_le_##tag(&X, &Y), ge = ord_ge_##tag(&X, &Y); \
    if (lt != (c < 0) || gt != (c > 0) || le != (c <= 0) || ge != (c >= 0)) return bad("order " #tag \
        ": %zu and %zu bytes, order %d, < %d > %d <= %d >= %d", a.ref.size(), b.ref.size(), c, lt, gt, le, ge); } while (0)

#define CMP(NM, T, MORE) static bool cmp_##NM(Rng& r) { \
    Seq<T> a, b; a.fill(r, len(r), int(r() % 3)); b.mutate(r, a.ref); \
    a.mem(); b.mem(); a.vec(r); b.vec(r); \
    int c = refcmp(a.ref, b.ref); \
    fu::view<T> wa(a.raw, int(a.ref.size())), wb(b.raw, int(b.ref.size())); \
    EQCK(NM, vv, a.v, b.v); EQCK(NM, vw, a.v, wb); EQCK(NM, wv, wa, b.v); EQCK(NM, ww, wa, wb); \
    { Seq<T> p; p.ref = b.ref; p.fill(r, upto(r, 3), 0); p.vec(r); \
      auto rm = fu::get_range_mut(p.v, 0, int(b.ref.size())); EQCK(NM, vrm, a.v, rm); } \
    { Seq<T> p; p.ref = a.ref; p.fill(r, upto(r, 3), 0); p.vec(r); \
      auto rc = fu::get_range(p.v, 0, int(a.ref.size())); EQCK(NM, rcw, rc, wb); } \
    MORE \
    /* views and copies that start at the same item */ \
    { int m = upto(r, int(a.ref.size())); b.ref.assign(a.ref.begin(), a.ref.begin() + m); c = refcmp(a.ref, b.ref); \
      fu::view<T> w2(a.raw, m); EQCK(NM, ww, wa, w2); EQCK(NM, ww, w2, wa); \
      fu::vec<T> q(a.v); if (m + 1 == int(a.ref.size())) { q.pop(); EQCK(NM, vv, a.v, q); EQCK(NM, vv, q, a.v); } \
      fu::view<T> wv(a.v.data(), m); EQCK(NM, vw, a.v, wv); } \
    { int o = upto(r, int(a.ref.size())), m = upto(r, int(a.ref.size()) - o); \
      b.ref.assign(a.ref.begin() + o, a.ref.begin() + o + m); c = refcmp(a.ref, b.ref); \
      fu::view<T> w2(a.raw + o, m); EQCK(NM, ww, wa, w2); } \
    return true; }
#define MORE1 \
    { fu::strlit la = { a.raw, int(a.ref.size()) }, lb = { b.raw, int(b.ref.size()) }; \
      EQCK(c1, vs, a.v, lb); EQCK(c1, sw, la, wb); \
      fu::view_mut<char> wm(a.raw, int(a.ref.size())); EQCK(c1, wmw, wm, wb); \
      ORDCK(vv, a.v, b.v); ORDCK(vs, a.v, lb); ORDCK(sw, la, wb); ORDCK(ww, wa, wb); }
CMP(c1, char, MORE1)
CMP(c2, short, )
CMP(c8, uint64_t, )
CMP(b24, Big24, )

static int reffind(const std::vector<char>& h, const std::vector<char>& n, int a, int e) {
    for (int i = a; i + int(n.size()) <= e; i++)
        if (!n.size() || !memcmp(h.data() + i, n.data(), n.size())) return i;
    return -1;
}
#define FCK(tag, H, N) do { \
    int x = find_##tag(&H, &N), y = find1_##tag(&H, &N, s), z = find2_##tag(&H, &N, s, e); \
    int hs = int(h.ref.size()), ns = int(n.ref.size()); \
    if (x != reffind(h.ref, n.ref, 0, hs)) return bad("find " #tag ": %d items in %d gives %d instead of %d", ns, hs, x, reffind(h.ref, n.ref, 0, hs)); \
    if (y != reffind(h.ref, n.ref, s, hs)) return bad("find " #tag ": %d items in %d from %d gives %d instead of %d", ns, hs, s, y, reffind(h.ref, n.ref, s, hs)); \
    if (z != reffind(h.ref, n.ref, s, e)) return bad("find " #tag ": %d items in %d from %d to %d gives %d instead of %d", ns, hs, s, e, z, reffind(h.ref, n.ref, s, e)); \
    bool l = lmatch_##tag(&H, &N), l1 = lmatch1_##tag(&H, &N, s), q = rmatch_##tag(&H, &N), q1 = rmatch1_##tag(&H, &N, s); \
    bool wl = ns <= hs && std::equal(n.ref.begin(), n.ref.end(), h.ref.begin()); \
    bool wl1 = ns <= hs - s && std::equal(n.ref.begin(), n.ref.end(), h.ref.begin() + s); \
    bool wr = ns <= hs && std::equal(n.ref.begin(), n.ref.end(), h.ref.end() - ns), wr1 = wr && ns <= hs - s; \
    (void)0; \
    if (l != wl || l1 != wl1) return bad("prefix test " #tag ": %d items, text of %d, start %d: %d %d", ns, hs, s, l, l1); \
    if (q != wr || q1 != rr1) return bad("suffix test " #tag ": %d items, text of %d, start %d: %d %d", ns, hs, s, q, q1); } while (0)
#include <algorithm>
static bool find_group(Rng& r) {
    Seq<char> h, n; int style = 1 + int(r() % 2);
    h.fill(r, len(r), style);
    if (r() % 3 && h.ref.size()) {
        int o = r() % 3 ? upto(r, int(h.ref.size())) : 0, m = upto(r, int(h.ref.size()) - o);
        if (r() % 3 == 0) { m = upto(r, int(h.ref.size())); o = int(h.ref.size()) - m; }
        n.ref.assign(h.ref.begin() + o, h.ref.begin() + o + m);
        if (r() % 3 == 0 && m) n.ref[r() % m] ^= 1;
    } else n.fill(r, upto(r, 4), style);
    h.mem(); n.mem(); h.vec(r); n.vec(r);
    int s = upto(r, int(h.ref.size())), e = s + upto(r, int(h.ref.size()) - s);
    int left = int(h.ref.size()) - s;
    bool rr1 = int(n.ref.size()) <= left && std::equal(n.ref.begin(), n.ref.end(), h.ref.begin() + (left - int(n.ref.size())));
    W wh(h.raw, int(h.ref.size())), wn(n.raw, int(n.ref.size()));
    fu::strlit ln = { n.raw, int(n.ref.size()) };
    FCK(ww, wh, wn); FCK(vs, h.v, ln); FCK(vv, h.v, n.v);
    return true;
}

static bool same(const fu::str& s, const std::string& w, const char* what) {
    if (s.size() == int(w.size()) && !memcmp(s.data(), w.data(), w.size())) return true;
    return bad("%s: %d characters \"%.*s\" instead of \"%.120s\"", what, s.size(), s.size() < 100 ? s.size() : 100, s.data(), w.c_str());
}
static bool dec_group(Rng& r) {
    uint64_t n = r();
    switch (r() % 6) {
        case 0: n >>= r() % 64; break;
        case 1: { n = 1; for (int i = upto(r, 19); i > 0; i--) n *= 10; n += r() % 3 - 1; break; }
        case 2: n = uint64_t(1) << r() % 64; n += r() % 3 - 1; break;
        case 3: n = -(n >> r() % 64); break;
        case 4: { n = 1; for (int i = upto(r, 18); i > 0; i--) n *= 10; n = -(n + r() % 3 - 1); break; }
    }
    char buf[512];
    { fu::str o; snprintf(buf, 512, "%" PRIu64, n); o = fu::str(); fu::str t; dec_u64(&t, n); if (!same(t, buf, "u64")) return false; }
    { fu::str t; snprintf(buf, 512, "%" PRId64, int64_t(n)); dec_i64(&t, int64_t(n)); if (!same(t, buf, "i64")) return false; }
    double d;
    switch (r() % 4) {
        case 0: memcpy(&d, &n, 8); break;
        case 1: d = double(int64_t(n)); break;
        case 2: d = std::ldexp(double(r() % 1000000), int(r() % 2000) - 1000) * (r() % 2 ? 1 : -1); break;
        default: d = r() % 8 == 0 ? std::numeric_limits<double>::max() : double(int64_t(r() % 2000000) - 1000000) / 1000; break;
    }
    { fu::str t; snprintf(buf, 512, "%f", d); dec_f64(&t, d); if (!same(t, buf, "f64")) return false; }
    { fu::str t; snprintf(buf, 512, "%f", double(float(d))); dec_f32(&t, float(d)); if (!same(t, buf, "f32")) return false; }
    bool b = r() % 2;
    { fu::str t; dec_bool(&t, b); if (!same(t, b ? "1" : "0", "bool")) return false; }
    return true;
}
static bool lit_group(Rng& r) {
    Seq<char> a; a.fill(r, len(r), int(r() % 3)); a.mem();
    int n = int(a.ref.size());
    std::string ref(a.ref.begin(), a.ref.end());
    fu::strlit l; lit_make(&l, a.raw, size_t(n));
    if (lit_size(&l) != n || lit_bool(&l) != (n != 0) || lit_data(&l) != a.raw) return bad("literal of %d characters: size %d", n, lit_size(&l));
    W w(a.raw, 0); lit_view(&w, a.raw, size_t(n));
    if (w.size() != n || w.data() != a.raw) return bad("view literal of %d characters: size %d", n, w.size());
    { fu::str t; lit_str(&t, &l); if (!same(t, ref, "literal to string")) return false; }
    int idx[] = { upto(r, n), n, n - 1, -1, -n, int(r()), std::numeric_limits<int>::min(), std::numeric_limits<int>::max() };
    for (int i : idx) {
        const char* p = lit_at(&l, i), *want = i >= 0 && i < n ? a.raw + i : (const char*)1;
        if (p != want) return bad("literal of %d characters: index %d gives %s", n, i, want == (const char*)1 ? "an address" : "another address");
    }
    std::string z(ref.c_str());
    char* c = (char*)malloc(z.size() + 1); memcpy(c, z.c_str(), z.size() + 1);
    bool ok = true;
    { fu::str t; cstr_str(&t, c); ok = same(t, z, "C string to string"); }
    { fu::str t; cstr_str(&t, nullptr); ok = ok && same(t, "", "null C string to string"); }
    Seq<char> b; b.fill(r, len(r), 0); b.vec(r);
    if (ok) { W q(a.raw, 0); cstr_view(&q, &b.v, uintptr_t(c), int(z.size())); if (q.data() != c || q.size() != int(z.size())) ok = bad("view of a C string: size %d", q.size()); }
    if (ok) { cstr_copy(&b.v, uintptr_t(c), int(z.size())); ok = same(b.v, z, "C string into string"); }
    if (ok && b.other.size() && memcmp(b.other.data(), b.ref.data(), b.ref.size())) ok = bad("C string into string changed a copy");
    free(c);
    return ok;
}

static bool one(const std::string& g, uint64_t k) {
    Rng r(k * 0x9e3779b97f4a7c15ull + 1);
    if (g == "cmp") switch (r() % 4) { case 0: return cmp_c1(r); case 1: return cmp_c2(r); case 2: return cmp_c8(r); default: return cmp_b24(r); }
    if (g == "find") return find_group(r);
    if (g == "dec") return dec_group(r);
    return lit_group(r);
}
static char CASE[64];
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0"; }
extern "C" void __asan_on_error() { printf("FOUND %s\nFAIL memory error\n", CASE); fflush(stdout); }
int main(int c, char** v) {
    if (c > 3 && !strcmp(v[1], "case")) {
        snprintf(CASE, sizeof CASE, "%s", v[2]);
        if (one(v[3], strtoull(v[2], 0, 10))) return puts("ok"), 0;
        return printf("FAIL %s\n", WHY), 1;
    }
    if (c < 5) return 2;
    double secs = atof(v[2]);
    uint64_t k = strtoull(v[3], 0, 10) << 32, n = 0;
    time_t t0 = time(0);
    for (; time(0) - t0 < secs; n++, k++) {
        snprintf(CASE, sizeof CASE, "%" PRIu64, k);
        if (!one(v[4], k)) { printf("FOUND %s\nFAIL %s\n", CASE, WHY); return 0; }
    }
    printf("no failing input in %" PRIu64 " cases\n", n);
}
