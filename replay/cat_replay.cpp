// searches for inputs on which the real concatenation, array literals, swaps or bulk assignments break their contracts
//   cat_replay search SECONDS SEED OP | case NUMBER OP     OP: the entry point's name without the element, or set/swap/memswap
#define ELT_ASSIGN 1
#define main vec_main
#include "vec_replay.cpp"
#undef main
#include <cinttypes>
#include <string>
#include <algorithm>
static std::vector<std::pair<const char*, void*>> ENTRY;
struct Reg { Reg(const char* n, void* f) { ENTRY.push_back({ n, f }); } };
#define REGN(n) CAT(NM, n)
#define REG(n) static Reg CAT(reg_, REGN(n))(#n, (void*) REGN(n));
#ifdef MEM
#include "../harness/mem_ops.cpp"
#else
#include "../harness/cat_ops.cpp"
#endif

static char TRIMMED[400];
struct Opnd {
    char f = 0; void* p = nullptr; S s, all; V* v = nullptr; int L = 0, R = 0; T* items = nullptr; int n = 0;
    std::string form;
};
static int size() { static const int SZ[] = { 0, 1, 2, 3, 5, 7, 8, 13, 14, 15, 16, 31, 32, 63, 64, 111, 112, 113, 127, 128, 140 };
                    return rnd() % 2 ? int(rnd() % 6) : SZ[rnd() % (sizeof SZ / sizeof *SZ)]; }
template <class X> static void viewof(Opnd& o, const T* p, int n) { o.p = malloc(sizeof(X)); memcpy(o.p, &p, sizeof p); memcpy((char*)o.p + sizeof p, &n, sizeof n); }
static void slice(Opnd& o) {
    int N = int(o.all.size());
    o.L = rnd() % 3 ? int(rnd() % (N + 1)) : 0;
    o.R = rnd() % 3 ? int(rnd() % (N - o.L + 1)) : 0;
    o.s = sub(o.all, o.L, N - o.L - o.R);
    if (o.form == "rc") o.p = mkrange<RC>(o.v, { o.L, o.R, 0 }); else o.p = mkrange<RM>(o.v, { o.L, o.R, 0 });
}
static void mk(Opnd& o, const std::string& form, Opnd* other, bool inside = false) {
    o.form = form;
    bool behind = form == "v" || form == "V" || form == "rc" || form == "rm" || form == "rmv";
    if (behind) {
        bool own = other && other->v && form != "V" && other->form != "V" && rnd() % 4 == 0;
        if (own) { o.v = other->v; o.all = other->all; }
        else {
            bool share = HAS_COPY && other && other->v && rnd() % 4 == 0;
            int n = size(), c = rnd() % 3 ? n + int(rnd() % 40) : n;
            o.v = build(share ? 4 : int(rnd() % (HAS_COPY ? 4 : 2)), n, c, share ? other->v : nullptr, &o.all);
        }
        if (form == "v" || form == "V") { o.p = o.v; o.s = o.all; } else slice(o);
        return;
    }
    if (inside && other && other->form != "x" && (form == "w" || form == "m")) {
        int N = int(other->s.size()), b = int(rnd() % (N + 1)), n = int(rnd() % (N - b + 1));
        const T* q = other->v ? other->v->data() + other->L : other->items;
        if (form == "w") viewof<W>(o, q + b, n); else viewof<WM>(o, q + b, n);
        o.s = sub(other->s, b, n);
        return;
    }
    int n = form == "x" ? 1 : form == "s" ? SLATE : size();
    Arr a = arr(n);
    o.items = a.p; o.n = n; o.s = a.s;
    if (form == "w") viewof<W>(o, a.p, n);
    else if (form == "m") viewof<WM>(o, a.p, n);
    else if (form == "l") viewof<W>(o, a.p, n);
    else o.p = a.p;
}
// what the call leaves of an operand
static void done(Opnd& o, bool given) {
    if (o.form == "V") { free(o.v); return; }
    if (o.form == "rc" || o.form == "rm" || o.form == "rmv") {
        if (((RM*)o.p)->m_vec != o.v || ((RM*)o.p)->m_trim != ((unsigned)o.L | ((u64)(unsigned)o.R << 32))) fail("a slice was changed");
        free(o.p);
    }
    if (o.form == "w" || o.form == "m" || o.form == "l") free(o.p);
    if (o.items) {
        if (!given) for (int i = 0; i < o.n; i++) if (Tr<T>::val(o.items + i) != o.s[i]) fail("an operand that is kept was changed");
        for (int i = 0; i < o.n; i++) o.items[i].~T();
        free(o.items);
    }
}
static const char* describe(const Opnd& a, const Opnd& b) {
    snprintf(TRIMMED, sizeof TRIMMED, " (left %s of %zu items, right %s of %zu items%s)", a.form.c_str(), a.s.size(), b.form.c_str(), b.s.size(),
             a.v && a.v == b.v ? ", of one array" : "");
    return TRIMMED;
}

#ifdef MEM
static int runmem(const std::string& op) {
    Arr z = { nullptr, 0, {} };
    Opnd a, b;
    if (op == "memswap") {
        size_t n = size_t(rnd() % 3 ? rnd() % 70 : rnd() % 9000), o = rnd() % 9, q = rnd() % 9;
        std::vector<unsigned char> x, y;
        for (size_t i = 0; i < n; i++) { x.push_back((unsigned char)rnd()); y.push_back((unsigned char)rnd()); }
        unsigned char* p = (unsigned char*)malloc(o + n + 1), *r = (unsigned char*)malloc(q + n + 1);
        memset(p, 0xA5, o + n + 1); memset(r, 0x5A, q + n + 1);
        std::copy(x.begin(), x.end(), p + o); std::copy(y.begin(), y.end(), r + q);
        fu::memswap(p + o, r + q, n);
        for (size_t i = 0; i < o + n + 1; i++) if (p[i] != (i < o || i == o + n ? 0xA5 : y[i - o])) fail("swapped bytes");
        for (size_t i = 0; i < q + n + 1; i++) if (r[i] != (i < q || i == q + n ? 0x5A : x[i - q])) fail("swapped bytes");
        fu::memswap(p + o, p + o, n);
        if (n && memcmp(p + o, y.data(), n)) fail("swapping a stretch with itself changes it");
        size_t h = n / 2;
        if (h) { fu::memswap(p + o, p + o + n - h, h);
                 for (size_t i = 0; i < n; i++) if (p[o + i] != (i < h ? y[n - h + i] : i >= n - h ? y[i - (n - h)] : y[i])) fail("swapping two stretches of one block"); }
        free(p); free(r);
        return FAILURE[0] ? 1 : 0;
    }
    if (op == "swap") {
        static const char* F1[] = { "v", "rm", "m", "s" };
        const char* f = F1[rnd() % 4];
        mk(a, f, nullptr);
        int n = int(a.s.size());
        if (n) {
            int i = int(rnd() % n), j = int(rnd() % n);
            S w = a.s; std::swap(w[i], w[j]);
            if (!strcmp(f, "v")) CAT(NM, _vswap_v)((V*)a.p, i, j);
            else if (!strcmp(f, "rm")) CAT(NM, _vswap_rm)((RM*)a.p, i, j);
            else if (!strcmp(f, "m")) CAT(NM, _vswap_m)((WM*)a.p, i, j);
            else CAT(NM, _vswap_s)((SL*)a.p, i, j);
            if (a.v) { S all = cat(cat(sub(a.all, 0, a.L), w), sub(a.all, a.L + n, a.R)); expect(a.v, all); }
            else a.s = w;
        }
        done(a, false);
        return endcase(z, z);
    }
#ifdef FROM_
    {
        static const char* FA[] = { "m", "m", "m", "v", "rm", "s", "m", "mv" }, *FB[] = { "w", "v", "rc", "w", "w", "w", "s", "w" };
        int q = int(rnd() % 8);
        if (sizeof(T) != sizeof(U)) q = 0;
        std::string fa = FA[q], fb = FB[q];
        mk(a, fa == "mv" ? "m" : fa, nullptr);
        if (sizeof(T) != sizeof(U)) {
            size_t nb = size_t(size()), ba = a.s.size() * sizeof(T), bb = nb * sizeof(U);
            U* u = (U*)malloc(bb + 1);
            for (size_t i = 0; i < bb; i++) ((unsigned char*)u)[i] = (unsigned char)rnd();
            std::vector<unsigned char> was((unsigned char*)a.items, (unsigned char*)a.items + ba);
            fu::view<U> w(u, int(nb));
            CAT(NM, _vset_m_w)((WM*)a.p, &w);
            for (size_t i = 0; i < ba; i++) if (((unsigned char*)a.items)[i] != (i < bb ? ((unsigned char*)u)[i] : was[i])) fail("assigned bytes");
            for (int i = 0; i < a.n; i++) a.s[i] = Tr<T>::val(a.items + i);
            free(u); done(a, false);
            return endcase(z, z);
        }
        mk(b, fb, &a, fb == "w" && rnd() % 3 == 0 && a.items && fa != "s");
        S w = b.s; size_t m = std::min(a.s.size(), b.s.size());
        w = cat(sub(b.s, 0, int(m)), sub(a.s, int(m), int(a.s.size() - m)));
        const fu::view<U>* pw = (const fu::view<U>*)b.p;
        if (q == 0 || q == 7) { if (q) CAT(NM, _vset_mv_w)((WM*)a.p, pw); else CAT(NM, _vset_m_w)((WM*)a.p, pw); }
        else if (q == 1) CAT(NM, _vset_m_v)((WM*)a.p, (const fu::vec<U>*)b.p);
        else if (q == 2) CAT(NM, _vset_m_rc)((WM*)a.p, (const fu::vec_range<U>*)b.p);
        else if (q == 3) CAT(NM, _vset_v_w)((V*)a.p, pw);
        else if (q == 4) CAT(NM, _vset_rm_w)((RM*)a.p, pw);
        else if (q == 5) CAT(NM, _vset_s_w)((SL*)a.p, pw);
        else CAT(NM, _vset_m_s)((WM*)a.p, (const fu::slate<SLATE, U>*)b.p);
        if (a.v) expect(a.v, cat(cat(sub(a.all, 0, a.L), w), sub(a.all, int(a.all.size()) - a.R, a.R)));
        else a.s = w;
        done(b, false); done(a, false);
        return endcase(z, z);
    }
#endif
    return 2;
}
#define RUNOP runmem
#else
static int runcat(const std::string& op) {
    void* fn = nullptr;
    for (auto& e : ENTRY) if (op == e.first + 1) fn = e.second;
    if (!fn) return 2;
    Arr z = { nullptr, 0, {} };
    Opnd a, b;
    if (op.substr(0, 3) == "lit") {
        mk(a, "s", nullptr);
        V* o = raw();
        ((void(*)(void*, void*))fn)(o, a.p);
        expect(o, a.s);
        done(a, true);
        return endcase(z, z);
    }
    size_t u = op.rfind('_');
    std::string fa = op.substr(4, u - 4), fb = op.substr(u + 1);
    mk(a, fa, nullptr); mk(b, fb, &a, op[0] == 'c' && fa != "V" && rnd() % 3 == 0);
    if (a.form == "V") unhold(a.v);
    if (b.form == "V") unhold(b.v);
    if (op[0] == 'c') {
        V* o = raw();
        ((void(*)(void*, void*, void*))fn)(o, a.p, b.p);
        expect(o, cat(a.s, b.s));
    } else if (op[0] == 'a') {
        ((void(*)(void*, void*))fn)(a.p, b.p);
        int N = int(a.all.size());
        expect(a.v, cat(cat(sub(a.all, 0, N - a.R), b.s), sub(a.all, N - a.R, a.R)));
    } else {
        ((void(*)(void*, void*))fn)(a.p, b.p);
        expect(a.v, b.s);
    }
    done(a, a.form == "x"); done(b, b.form == "x");
    if (FAILURE[0]) strncat(FAILURE, describe(a, b), sizeof FAILURE - strlen(FAILURE) - 1);
    int r = endcase(z, z);
    if (r) strncat(FAILURE, describe(a, b), sizeof FAILURE - strlen(FAILURE) - 1);
    return r;
}
#define RUNOP runcat
#endif

static int one(u64 k, const char* op) { FAILURE[0] = 0; RS = k * 0x9e3779b97f4a7c15ull + 1; rnd(); rnd(); return RUNOP(op); }
int main(int c, char** v) {
    if (c > 3 && !strcmp(v[1], "case")) {
        int r = one(strtoull(v[2], 0, 10), v[3]);
        return r ? printf("FAIL %s\n", FAILURE), 1 : (puts("ok"), 0);
    }
    if (c < 5) return 2;
    double secs = atof(v[2]);
    u64 k = strtoull(v[3], 0, 10) << 32;
    struct Shm { u64 k; char msg[512]; };
    Shm* sh = (Shm*) mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->k = k;
    time_t t0 = time(0);
    while (time(0) - t0 < secs) {
        pid_t pid = fork();
        if (!pid) {
            freopen("/dev/null", "w", stderr);
            for (int q = 0; q < 400; q++, sh->k++) {
                int r = one(sh->k, v[4]);
                if (r == 2) _Exit(3);
                if (r) { strcpy(sh->msg, FAILURE); _Exit(1); }
            }
            _Exit(0);
        }
        int stt = 0;
        waitpid(pid, &stt, 0);
        if (WIFEXITED(stt) && WEXITSTATUS(stt) == 3) break;
        if (stt) {
            if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 1 || !sh->msg[0]) strcpy(sh->msg, "crash (memory error)");
            printf("FOUND %" PRIu64 "\nFAIL %s\n", (uint64_t)sh->k, sh->msg);
            return 0;
        }
    }
    printf("no failing input in %" PRIu64 " cases\n", (uint64_t)(sh->k - k));
}
