// Runs one operation of the real fu::vec<T> from a described pre-state and compares with a std::vector oracle.
//   prog case OP k0 k1 n0 c0 n1 c1 p0 p1 p2 p3        one case; exit 1 and a message if the property fails
//   prog search OP SECONDS SEED                        random cases in forked children until one fails
#define ELT_IMPL 1
#include "alloc_model.h"
#include "../harness/vec_ops.cpp"
#ifdef RANGES
#include "../harness/range_ops.cpp"
#endif
#include <set>
#include <vector>
#include <ctime>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>

typedef unsigned long u64;
static std::set<u64> LIVE;
static u64 NEXT = 1;
static u64 mint(u64 v) { u64 id = (NEXT++ << 32) | (v & 0xffffffff); LIVE.insert(id); return id; }
extern "C" void elt_copy(void* d, const void* s) noexcept {
    u64 v = *(const u64*)s;
    if (v && !LIVE.count(v)) fail("a destroyed element is copied");
    *(u64*)d = v ? mint(v) : 0;
}
extern "C" void elt_move(void* d, void* s) noexcept {
    u64 v = *(u64*)s;
    if (v && !LIVE.count(v)) fail("a destroyed element is moved");
    *(u64*)d = v; *(u64*)s = 0;
}
extern "C" void elt_dtor(void* d) noexcept {
    u64 v = *(u64*)d;
    if (v && !LIVE.erase(v)) fail("an element is destroyed twice");
    *(u64*)d = 0xDEADDEAD;
}
Elt::Elt(const Elt& e) noexcept { elt_copy(this, &e); }
Elt::Elt(Elt&& e) noexcept { elt_move(this, &e); }
Elt::~Elt() noexcept { elt_dtor(this); }
Uniq::Uniq(Uniq&& e) noexcept { elt_move(this, &e); }
Uniq::~Uniq() noexcept { elt_dtor(this); }

template <typename X> struct Tr {
    static void make(X* p, u64 v) { memset((void*)p, 0, sizeof(X)); memcpy((void*)p, &v, sizeof v < sizeof(X) ? sizeof v : sizeof(X)); }
    static u64 val(const X* p) { u64 v = 0; memcpy(&v, (const void*)p, sizeof v < sizeof(X) ? sizeof v : sizeof(X)); return v; }
};
template <> struct Tr<Elt> {
    static void make(Elt* p, u64 v) { *(u64*)p = mint(v); }
    static u64 val(const Elt* p) { u64 v = *(const u64*)p; if (v && !LIVE.count(v)) fail("an owned element was destroyed"); return v & 0xffffffff; }
};
template <> struct Tr<Uniq> {
    static void make(Uniq* p, u64 v) { *(u64*)p = mint(v); }
    static u64 val(const Uniq* p) { u64 v = *(const u64*)p; if (v && !LIVE.count(v)) fail("an owned element was destroyed"); return v & 0xffffffff; }
};
typedef std::vector<u64> S;
static u64 MASK = sizeof(T) >= 8 ? 0xffffffff : sizeof(T) >= 4 ? 0xffffffff : (u64(1) << (8 * sizeof(T))) - 1;
static u64 CTR = 1;
static u64 nextval() { u64 v = (CTR++ * 2654435761u >> 3) & MASK; return v ? v : 1; }

struct Arr { T* p; int n; S s; };
static Arr arr(int n) {
    Arr a; a.n = n; a.p = (T*) malloc(n ? n * sizeof(T) : 1);
    for (int i = 0; i < n; i++) { u64 v = nextval(); Tr<T>::make(a.p + i, v); a.s.push_back(v); }
    return a;
}
static void drop(Arr& a) { for (int i = 0; i < a.n; i++) a.p[i].~T(); free(a.p); }

static std::vector<std::pair<V*, S>> HOLD;
static V* raw() { return (V*) malloc(sizeof(V)); }
static S contents(const V* v) {
    S s;
    int n = v->size();
    if (n < 0 || n > (1 << 24)) { fail("impossible size"); return s; }
    for (int i = 0; i < n; i++) s.push_back(Tr<T>::val(v->data() + i));
    return s;
}
static bool same(const S& a, const S& b) { return a == b; }
// representation, ownership: `others` is the number of vectors sharing the block besides v
static void checkrep(const V* v, const char* who) {
    int n = v->size();
    int sc = v->shared_capa();
    if (sc > V::SMALL_CAPA) {
        char* blk = (char*) v->data() - (V::SHAREABLE ? 16 : 0);
        auto it = BLOCKS.find(blk);
        if (it == BLOCKS.end()) { fail("a vector uses a freed block"); return; }
        if (n > sc) fail("size exceeds capacity");
        if (size_t(sc) * sizeof(T) > it->second.total - (V::SHAREABLE ? 16 : 0)) fail("capacity exceeds the block");
        if (V::SHAREABLE) {
            int owners = 0;
            for (auto& h : HOLD) if (h.first->shared_capa() > V::SMALL_CAPA && h.first->data() == v->data()) owners++;
            int cnt = ((fu_ARC*) blk)->m_arc.load();
            if (cnt != owners - 1) fail("the reference count is wrong");
            if (owners > 1 && v->capa() >= 0) fail("a block with several owners is not marked shared");
        }
    }
    else if (n > (V::HAS_SMALL ? V::SMALL_CAPA : 0)) fail("a small vector is too big");
    (void) who;
}
static V* build(int kind, int n, int capa, V* share, S* out) {
    V* v = raw();
    new (v) V();
    S s;
#if HAS_COPY
    if (kind == 4 && share) {
        v->~V();
        new (v) V(*share);
        s = contents(share);
        HOLD.push_back({ v, s });
        *out = s;
        return v;
    }
#endif
    if (kind == 0) { if (n > V::SMALL_CAPA) n = V::SMALL_CAPA; }
    else v->reserve(capa > n ? capa : n ? n : 1);
    for (int i = 0; i < n; i++) {
        alignas(T) char b[sizeof(T)];
        u64 x = nextval();
        Tr<T>::make((T*)b, x);
        v->push((T&&)*(T*)b);
        ((T*)b)->~T();
        s.push_back(x);
    }
    HOLD.push_back({ v, s });
#if HAS_COPY
    if (kind == 2) { V* h = raw(); new (h) V(*v); HOLD.push_back({ h, s }); }
    if (kind == 3) { V* h = raw(); new (h) V(*v); h->~V(); free(h); }
#endif
    *out = s;
    return v;
}
static void unhold(V* v) { for (size_t i = 0; i < HOLD.size(); i++) if (HOLD[i].first == v) { HOLD.erase(HOLD.begin() + i); return; } }
static void expect(V* v, const S& s) { for (auto& h : HOLD) if (h.first == v) { h.second = s; return; } HOLD.push_back({ v, s }); }
static int cl(int x, int lo, int hi) { return x < lo ? lo : x > hi ? hi : x; }
static S cat(const S& a, const S& b) { S r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static S sub(const S& a, int i, int n) { return S(a.begin() + i, a.begin() + i + n); }

static bool G_unique(V* v, const char* w) {
    if (v->capa() < 0) { fail(w); return false; }
    return true;
}
#define IS(x) (!strcmp(op, x))
#define C(name) CAT(NM, name)

static int endcase(Arr& a, Arr& b) {
    for (auto& h : HOLD) {
        S got = contents(h.first);
        if (!same(got, h.second)) fail("an array has the wrong items afterwards");
        checkrep(h.first, "");
    }
    if (FAILURE[0]) return 1;
    // writing through one vector changes no other
    for (size_t q = 0; q < HOLD.size(); q++) {
        V* h = HOLD[q].first;
        if (!h->size()) continue;
        T* dm = h->data_mut();
        for (int j = 0; j < h->size(); j++) { u64 nv = nextval(); dm[j].~T(); Tr<T>::make(dm + j, nv); HOLD[q].second[j] = nv; }
        for (auto& g : HOLD) if (!same(contents(g.first), g.second)) fail("writing to one vector changes another");
        if (FAILURE[0]) return 1;
    }
    for (auto& h : HOLD) { h.first->~V(); free(h.first); }
    HOLD.clear();
    drop(a); drop(b);
    if (!BLOCKS.empty()) fail("a block is leaked");
    if (!LIVE.empty()) fail("an element is leaked");
    return FAILURE[0] ? 1 : 0;
}

static int runcase(const char* op, const int* k, const int* n, const int* c, const int* p) {
    FAILURE[0] = 0;
    S s, t;
    bool hasv = !(IS("ctor") || IS("move_ctor") || IS("copy_ctor") || IS("destructive_move") || IS("destructive_move_or_default")
               || IS("init_copy") || IS("init_copy2") || IS("init_move"));
    V* v = hasv ? build(k[0], n[0], c[0], nullptr, &s) : raw();
    if (FAILURE[0]) return 1;
    if (hasv && !same(contents(v), s)) { fail("building the pre-state by push/reserve"); return 1; }
    int N = s.size();
    V* w = nullptr;
    bool two = IS("move_assign") || IS("swap") || IS("copy_assign") || IS("splice_mv") || IS("append_mv") || IS("append0_mv")
            || IS("splice_vec") || IS("append_vec") || IS("move_ctor") || IS("copy_ctor") || IS("destructive_move") || IS("destructive_move_or_default");
    if (two) w = build(k[1], n[1], c[1], hasv ? v : nullptr, &t);
    int M = t.size();
    Arr a = { nullptr, 0, {} }, b = a;
    alignas(T) char xb[sizeof(T)];
    u64 xv = 0;
    T* x = (T*) xb;
    bool one = IS("push") || IS("unshift") || IS("insert");
    if (one) { xv = nextval(); Tr<T>::make(x, xv); }
    int i = cl(p[0], 0, N), d = cl(p[1], 0, N - i), m = p[2] < 0 ? -p[2] : p[2];

    if (IS("dtor")) { unhold(v); C(_dtor)(v); free(v); v = nullptr; }
    else if (IS("ctor")) { C(_ctor)(v); expect(v, {}); }
    else if (IS("move_ctor")) { unhold(w); C(_move_ctor)(v, w); free(w); w = nullptr; expect(v, t); }
    else if (IS("destructive_move")) { unhold(w); C(_dmove)(v, w); free(w); w = nullptr; expect(v, t); }
    else if (IS("destructive_move_or_default")) { unhold(w); C(_dmove_def)(v, w); free(w); w = nullptr; expect(v, t); }
    else if (IS("move_assign")) { unhold(w); C(_move_assign)(v, w); free(w); w = nullptr; expect(v, t); }
    else if (IS("swap")) { C(_swap)(v, w); expect(v, t); expect(w, s); }
    else if (IS("push")) { C(_push)(v, x); expect(v, cat(s, { xv })); }
    else if (IS("unshift")) { C(_unshift)(v, x); expect(v, cat({ xv }, s)); }
    else if (IS("insert")) { C(_insert)(v, p[0], x); expect(v, cat(cat(sub(s, 0, i), { xv }), sub(s, i, N - i))); }
    else if (IS("pop")) { C(_pop)(v); expect(v, sub(s, 0, N ? N - 1 : 0)); }
    else if (IS("shift1")) { C(_shift1)(v); expect(v, N ? sub(s, 1, N - 1) : s); }
    else if (IS("shift")) { C(_shift)(v, p[0]); expect(v, sub(s, i, N - i)); }
    else if (IS("shift_pop")) { C(_shift_pop)(v, p[0], p[1]); expect(v, sub(s, i, N - i - d)); }
    else if (IS("resize") || IS("resize_junk") || IS("grow") || IS("grow_junk") || IS("shrink")) {
        int q = p[0] < 0 ? -p[0] : p[0];
        bool junk = IS("resize_junk") || IS("grow_junk");
        if (IS("resize")) C(_resize)(v, q); else if (IS("resize_junk")) C(_resize_junk)(v, q);
        else if (IS("grow")) C(_grow)(v, q); else if (IS("grow_junk")) C(_grow_junk)(v, q); else C(_shrink)(v, q);
        S r = s;
        if (q < N && !IS("grow") && !IS("grow_junk")) r = sub(s, 0, q);
        if (q > N && !IS("shrink")) while ((int) r.size() < q) r.push_back(0);
        if (junk && q > N && V::TRIVIAL) {
            if (v->size() != q) fail("size after resize");
            else for (int j = N; j < q; j++) r[j] = Tr<T>::val(v->data() + j);
        }
        expect(v, r);
    }
    else if (IS("clear")) { C(_clear)(v); expect(v, {}); }
    else if (IS("reserve")) {
        int q = p[0] < 0 ? -p[0] : p[0];
        C(_reserve)(v, q);
        G_unique(v, "reserve() leaves the vector shared");
        if (v->capa() < q) fail("reserve() reserved too little");
        expect(v, s);
    }
    else if (IS("reserve0")) { C(_reserve0)(v); G_unique(v, "reserve() leaves the vector shared"); expect(v, s); }
    else if (IS("data_mut")) { T* q = C(_data_mut)(v); G_unique(v, "data_mut() of a shared vector"); if (q != v->data()) fail("data_mut() is not the data"); expect(v, s); }
    else if (IS("index")) {
        const T* q = C(_at)(v, p[0]);
        bool in = p[0] >= 0 && p[0] < N;
        if (q != (in ? v->data() + p[0] : (T*) 1)) fail(in ? "an index in range selects another item" : "an index out of range is not trapped");
        expect(v, s);
    }
    else if (IS("index_mut")) {
        T* q = C(_mutref)(v, p[0]);
        bool in = p[0] >= 0 && p[0] < N;
        if (q != (in ? v->data() + p[0] : (T*) 1)) fail(in ? "an index in range selects another item" : "an index out of range is not trapped");
        G_unique(v, "mutable access to a shared vector");
        expect(v, s);
    }
    else if (IS("accessors")) {
        if (C(_size)(v) != N) fail("size()");
        if (C(_bytesize)(v) != N * (long) sizeof(T)) fail("bytesize()");
        if (C(_bool)(v) != (N != 0)) fail("operator bool");
        if (C(_end)(v) - C(_begin)(v) != N || C(_begin)(v) != C(_data)(v)) fail("begin()/end()");
        expect(v, s);
    }
    else if (IS("splice")) { C(_splice)(v, p[0], p[1]); expect(v, cat(sub(s, 0, i), sub(s, i + d, N - i - d))); }
    else if (IS("splice_empty")) { C(_splice_empty)(v, p[0], p[1], m); expect(v, cat(cat(sub(s, 0, i), S(m, 0)), sub(s, i + d, N - i - d))); }
    else if (IS("splice_mv")) { unhold(w); C(_splice_mv)(v, p[0], p[1], w); free(w); w = nullptr; expect(v, cat(cat(sub(s, 0, i), t), sub(s, i + d, N - i - d))); }
    else if (IS("append_mv")) { int e = cl(p[1], 0, N); unhold(w); C(_append_mv)(v, p[1], w); free(w); w = nullptr; expect(v, cat(sub(s, 0, N - e), t)); }
    else if (IS("append0_mv")) { unhold(w); C(_append0_mv)(v, w); free(w); w = nullptr; expect(v, cat(s, t)); }
#if HAS_COPY
    else if (IS("copy_ctor")) { C(_copy_ctor)(v, w); expect(v, t); }
    else if (IS("copy_assign")) { C(_copy_assign)(v, w); expect(v, t); }
    else if (IS("splice_vec")) { C(_splice_vec)(v, p[0], p[1], w); expect(v, cat(cat(sub(s, 0, i), t), sub(s, i + d, N - i - d))); }
    else if (IS("append_vec")) { int e = cl(p[1], 0, N); C(_append_vec)(v, p[1], w); expect(v, cat(sub(s, 0, N - e), t)); }
    else if (IS("splice_copy") || IS("append_copy") || IS("append0_copy")) {
        const T* q; S r;
        if (k[1]) { int o = cl(p[3], 0, N); m = cl(m, 0, N - o); q = v->data() + o; r = sub(s, o, m); }
        else { a = arr(m); q = a.p; r = a.s; }
        int e = cl(p[1], 0, N);
        if (IS("splice_copy")) { C(_splice_cp)(v, p[0], p[1], q, m); expect(v, cat(cat(sub(s, 0, i), r), sub(s, i + d, N - i - d))); }
        else if (IS("append_copy")) { C(_append_cp)(v, p[1], q, m); expect(v, cat(sub(s, 0, N - e), r)); }
        else { C(_append0_cp)(v, q, m); expect(v, cat(s, r)); }
    }
    else if (IS("init_copy")) { a = arr(m); C(_init_copy)(v, a.p, m); expect(v, a.s); }
    else if (IS("init_copy2")) { a = arr(m); b = arr(cl(p[3], 0, 400)); C(_init_copy2)(v, a.p, a.n, b.p, b.n); expect(v, cat(a.s, b.s)); }
#endif
    else if (IS("init_move")) { a = arr(m); C(_init_move)(v, a.p, m); expect(v, a.s); }
    else { printf("unknown op %s\n", op); return 2; }
    if (one) x->~T();
    return endcase(a, b);
}
#ifdef RANGES
#include <fu/mem/memswap.cpp>
#include "range_replay.h"
#endif

#ifdef RANGES
#define RUN runrange
#else
#define RUN runcase
#endif
static unsigned long long RS;
static unsigned rnd() { RS = RS * 6364136223846793005ull + 1442695040888963407ull; return RS >> 33; }
int main(int argc, char** argv) {
    if (argc > 3 && !strcmp(argv[1], "case")) {
        int v[14] = { 0 };
        for (int i = 0; i < 14 && i + 3 < argc; i++) v[i] = atoi(argv[i + 3]);
        int k[2] = { v[0], v[1] }, n[2] = { v[2], v[4] }, c[2] = { v[3], v[5] };
        int r = RUN(argv[2], k, n, c, v + 6);
        if (r) printf("FAIL %s\n", FAILURE);
        fflush(stdout);
        _Exit(r);
    }
    if (argc > 4 && !strcmp(argv[1], "search")) {
        const char* op = argv[2];
        double lim = atof(argv[3]);
        RS = atoi(argv[4]) * 7919ull + 13;
        struct Shm { int v[14]; long done; char msg[512]; };
        Shm* sh = (Shm*) mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        time_t t0 = time(0);
        static const int SZ[] = { 0, 1, 2, 3, 4, 6, 7, 8, 13, 14, 15, 16, 17, 30, 31, 32, 33, 63, 64, 100, 111, 112, 113, 127, 128, 140 };
        long cases = 0;
        while (time(0) - t0 < lim) {
            unsigned long long seed = RS;
            pid_t pid = fork();
            if (!pid) {
                freopen("/dev/null", "w", stderr);
                RS = seed;
                for (int q = 0; q < 400; q++) {
                    int* v = sh->v;
                    bool tiny = rnd() % 2;
                    auto size = [&]() { return tiny ? int(rnd() % 5) : SZ[rnd() % (sizeof SZ / sizeof *SZ)]; };
                    bool selfop = !strcmp(op, "splice_copy") || !strcmp(op, "append_copy") || !strcmp(op, "append0_copy") || (strlen(op) > 3 && !strcmp(op + strlen(op) - 3, "_cp"));
                    v[0] = rnd() % (HAS_COPY ? 4 : 2); v[1] = selfop ? rnd() % 2 : rnd() % (HAS_COPY ? 5 : 2);
                    v[2] = size(); v[3] = size(); v[4] = size(); v[5] = size();
                    for (int j = 6; j < 14; j++) {
                        unsigned z = rnd() % 10;
                        v[j] = z == 0 ? -int(rnd() % 20) : z == 1 ? v[2] : z == 2 ? v[2] - 1 : z == 3 ? v[2] + 1 : z == 4 ? v[4] : z < 7 ? size() : v[2] ? int(rnd() % (v[2] + 1)) : 0;
                    }
                    int k[2] = { v[0], v[1] }, n[2] = { v[2], v[4] }, c[2] = { v[3], v[5] };
                    int r = RUN(op, k, n, c, v + 6);
                    if (r == 2) _Exit(3);
                    if (r) { strcpy(sh->msg, FAILURE); _Exit(1); }
                    sh->done++;
                }
                _Exit(0);
            }
            for (int q = 0; q < 40; q++) rnd();
            int stt = 0;
            waitpid(pid, &stt, 0);
            cases = sh->done;
            if (WIFEXITED(stt) && WEXITSTATUS(stt) == 3) break;
            if (stt) {
                if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 1 || !sh->msg[0]) strcpy(sh->msg, "crash (memory error)");
                printf("FOUND %s", op);
                for (int j = 0; j < 14; j++) printf(" %d", sh->v[j]);
                printf("\nFAIL %s\n", sh->msg);
                return 1;
            }
        }
        printf("NONE %ld\n", cases);
        return 0;
    }
    return 2;
}
