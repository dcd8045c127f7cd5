// searches for a request size on which the real allocator breaks its contract:  arc_replay search SECONDS SEED | case KIND BYTES
#include <new>
#include <cstdlib>
#include <cstdio>
#include <cstdint>
#include <csetjmp>
#include <cstring>
#include <atomic>
#include <cassert>
#include <ctime>
#include <random>
#include <sys/mman.h>
#include <unistd.h>
#include <sys/wait.h>

static jmp_buf EXITED;
static bool IN;
static int EXITCODE;
struct M { void* p; size_t n; bool live; } LOG[64];
static int NLOG;
static char WHY[256];
static void bad(const char* w) { if (!WHY[0]) snprintf(WHY, sizeof WHY, "%s", w); }
namespace std {
static void* vr_malloc(size_t n) {
    // address space only: nothing but the header and the ends is ever touched
    void* p = mmap(0, n ? n : 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { IN = false; EXITCODE = -1; longjmp(EXITED, 1); }
    if (NLOG < 64) LOG[NLOG++] = { p, n, true };
    return p;
}
static void vr_free(void* p) {
    for (int i = 0; i < NLOG; i++) if (LOG[i].p == p) {
        if (!LOG[i].live) bad("a block is given back twice");
        LOG[i].live = false;
        munmap(p, LOG[i].n ? LOG[i].n : 1);
        return;
    }
    bad("something is given back that was not taken from the system");
}
[[noreturn]] static void vr_exit(int c) { EXITCODE = c; IN = false; longjmp(EXITED, 1); }
}
#define malloc vr_malloc
#define free vr_free
#define exit vr_exit
#include <fu/mem/arc.cpp>
#undef malloc
#undef free
#undef exit

static bool one(int kind, size_t req, size_t rel) {
    NLOG = 0; WHY[0] = 0; EXITCODE = 0;
    size_t hdr = kind ? 0 : 16, lim = kind ? size_t(1) << 30 : size_t(1) << 31;
    bool big = req > lim - hdr;
    volatile bool exited = true;
    static size_t io;
    static char* p;
    io = req;
    if (!setjmp(EXITED)) { p = kind ? fu_UNIQ_ALLOC(&io) : fu_ARC_ALLOC(&io); exited = false; }
    if (exited && EXITCODE == -1) return true;
    if (exited) {
        if (!big) bad("a request that fits ends the program");
        else if (EXITCODE != 101) bad("wrong exit code");
        for (int i = 0; i < NLOG; i++) if (LOG[i].live) munmap(LOG[i].p, LOG[i].n);
        return !WHY[0];
    }
    if (big) bad("a request that does not fit returns a block");
    if (NLOG != 1) { bad("not one block is taken from the system"); return false; }
    size_t tot = LOG[0].n;
    if (p != (char*)LOG[0].p + hdr) bad("the data does not start after the header");
    if (io != tot - hdr) bad("the reported size is not that of the block");
    if (io < req) bad("the block is too small");
    if (tot < 128 || tot > (size_t(1) << 31) || (tot != 128 && tot / 2 >= req + hdr)) bad("the block has a wrong size");
    if (!kind && *(int*)LOG[0].p) bad("a new block does not have one owner");
    if (WHY[0]) return false;
    size_t lo = kind ? (tot == 128 ? 1 : tot / 2 + 1) : 1, hi = tot - hdr;
    size_t b = rel % (hi - lo + 1) + lo;
    exited = true;
    if (!setjmp(EXITED)) { if (kind) fu_UNIQ_DEALLOC(p, b); else fu_ARC_DEALLOC((fu_ARC*)LOG[0].p, b); exited = false; }
    if (exited) bad("releasing ends the program");
    if (LOG[0].live) bad("the block is not given back");
    if (NLOG != 1) bad("releasing takes a block from the system");
    return !WHY[0];
}
// the leak counters are checked by the real end-of-program check, in a child
static bool balanced(int kind, size_t req, size_t rel) {
    pid_t c = fork();
    if (!c) { if (!freopen("/dev/null", "w", stdout)) _exit(0); one(kind, req, rel); std::exit(0); }
    int st; waitpid(c, &st, 0);
    return !WIFSIGNALED(st);
}
int main(int argc, char** argv) {
    if (argc > 4 && !strcmp(argv[1], "case")) {
        bool ok = one(atoi(argv[2]), strtoull(argv[3], 0, 0), strtoull(argv[4], 0, 0));
        if (ok && !balanced(atoi(argv[2]), strtoull(argv[3], 0, 0), strtoull(argv[4], 0, 0)))
            { ok = false; bad("the leak check fails although everything was released"); }
        printf("%s %s\n", ok ? "OK" : "FAIL", WHY);
        _exit(!ok);
    }
    int secs = argc > 2 ? atoi(argv[2]) : 10;
    std::mt19937_64 R(argc > 3 ? atoi(argv[3]) : 1);
    time_t t0 = time(0);
    long n = 0;
    auto tryit = [&](int kind, size_t req, size_t rel, bool leak) {
        n++;
        bool ok = one(kind, req, rel);
        if (ok && leak && !balanced(kind, req, rel)) { ok = false; bad("the leak check fails although everything was released"); }
        if (!ok) {
            printf("FOUND %d %zu %zu\nFAIL %s block, %zu bytes: %s\n", kind, req, rel, kind ? "private" : "shareable", req, WHY);
            fflush(stdout);
            _exit(0);
        }
    };
    for (int b = 0; b < 64; b++) for (long d = -40; d <= 40; d++) for (int kind = 0; kind < 2; kind++) {
        size_t req = (size_t(1) << b) + d;
        tryit(kind, req, R(), d == 1 || d == -16);
    }
    for (size_t req = 0; req < 5000; req++) for (int kind = 0; kind < 2; kind++) tryit(kind, req, R(), !(req % 37));
    while (time(0) - t0 < secs) { size_t req = R() >> (R() % 64); tryit(n & 1, req, R(), !(n % 50)); }
    printf("no failure in %ld calls\n", n);
    fflush(stdout);
    _exit(0);
}
