// The allocator contract, executable: blocks come from malloc, so that AddressSanitizer sees every overrun and
// every use after free, and are tracked, so that leaks, double frees and wrong sizes are reported.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <fu/mem/arc.h>

static char FAILURE[512];
static void fail(const char* what) { if (!FAILURE[0]) snprintf(FAILURE, sizeof FAILURE, "%s", what); }
struct Blk { size_t total; bool arc; };
static std::map<void*, Blk> BLOCKS;
static size_t roundup(size_t n) { size_t r = 128; while (r < n) r <<= 1; return r; }
static bool WANT_EXIT;

extern "C" char* fu_ARC_ALLOC(size_t* io) {
    size_t need = *io + 16;
    if (need > (size_t(1) << 31) || need < *io) { printf("EXIT 101\n"); fflush(stdout); _Exit(WANT_EXIT ? 0 : 1); }
    size_t tot = roundup(need);
    fu_ARC* a = (fu_ARC*) malloc(tot);
    memset((void*)a, 0xAB, tot);
    a->m_arc = 0;
    BLOCKS[a] = { tot, true };
    *io = tot - 16;
    return (char*)(a + 1);
}
extern "C" void fu_ARC_DEALLOC(fu_ARC* a, size_t bytes) {
    auto it = BLOCKS.find(a);
    if (it == BLOCKS.end()) { fail("a block is freed twice or was never allocated"); return; }
    if (!it->second.arc) fail("a block is freed through the wrong allocator");
    if (!bytes || bytes > it->second.total - 16) fail("a block is freed with a wrong size");
    BLOCKS.erase(it);
    free(a);
}
extern "C" char* fu_UNIQ_ALLOC(size_t* io) {
    size_t tot = roundup(*io);
    if (*io > (size_t(1) << 30)) { printf("EXIT 101\n"); fflush(stdout); _Exit(WANT_EXIT ? 0 : 1); }
    char* p = (char*) malloc(tot);
    memset(p, 0xAB, tot);
    BLOCKS[p] = { tot, false };
    *io = tot;
    return p;
}
extern "C" void fu_UNIQ_DEALLOC(void* p, size_t bytes) {
    auto it = BLOCKS.find(p);
    if (it == BLOCKS.end()) { fail("a block is freed twice or was never allocated"); return; }
    if (it->second.arc) fail("a block is freed through the wrong allocator");
    if (!bytes || roundup(bytes) != it->second.total) fail("a block is freed with a wrong size");
    BLOCKS.erase(it);
    free(p);
}
