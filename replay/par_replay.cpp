// searches for a failing run of the parallel loop or the task stack:  par_replay search SECONDS SEED loop|stack | case WORKERS SEED GROUP
#include <cstddef>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <alloca.h>
#include <atomic>
#include <vector>
#include <algorithm>
#include <random>
#include <mutex>
#include <thread>
#include <string>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <par/parfor.hpp>
#include <par/parfor.cpp>

typedef unsigned long long u64;
static char NOW[200];
static int fail(const char* w) { printf("FAIL %s: %s\n", NOW, w); fflush(stdout); _exit(3); }
static void hang(int) { fail("does not end"); }

struct Run { std::mutex m; std::vector<std::pair<size_t, size_t>> parts; std::atomic<int> inside { 0 }; };

static void loop(u64 size, u64 per, int sleepy, int depth) {
    // lives as long as the program: a late task finds it
    Run& r = *new Run;
    fu::parallel_for(size, per, [&](size_t s, size_t e) {
        r.inside++;
        if (sleepy && (s + e) % 3 == 0) usleep(sleepy);
        if (depth && s % 7 == 0) loop(s % 100, 1 + s % 5, 0, depth - 1);
        { std::lock_guard<std::mutex> l(r.m); r.parts.push_back({ s, e }); }
        r.inside--;
    });
    if (r.inside) fail("the loop returns while tasks still run");
    std::lock_guard<std::mutex> l(r.m);
    auto v = r.parts;
    std::sort(v.begin(), v.end());
    u64 at = 0;
    for (auto& p : v) {
        if (p.first != at || p.second < p.first) fail("the tasks do not make up the loop, each part once");
        at = p.second;
    }
    if (at != size) fail("the tasks do not make up the loop, each part once");
}

struct N { N* next; void* run; std::atomic<int> owner; int id; };

static void stack1(std::mt19937_64& g) {
    lockfree::stack<3> s;
    static N n[64];
    std::vector<N*> model, rest;
    for (auto& x : n) { x.next = 0; rest.push_back(&x); }
    for (int i = 0; i < 200; i++) {
        size_t k = g() % 4;
        if (k && rest.size() >= k) {
            std::vector<N*> c;
            while (c.size() < k) { size_t j = g() % rest.size(); c.push_back(rest[j]); rest.erase(rest.begin() + j); }
            for (size_t j = 0; j + 1 < k; j++) c[j]->next = c[j + 1];
            s.push((char*)c[0], (char*)c[k - 1]);
            for (size_t j = k; j--;) model.push_back(c[j]);
        } else {
            N* p = (N*)s.try_pop();
            if (p != (model.empty() ? nullptr : model.back())) fail("something else than the last node pushed is taken");
            if (p) { model.pop_back(); rest.push_back(p); }
        }
    }
}

static void stack2(u64 seed, int threads) {
    static lockfree::stack<3> s;
    static N n[8];
    while (s.try_pop()) {}
    for (auto& x : n) { x.owner = 0; s.push((char*)&x, (char*)&x); }
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; t++)
        ts.emplace_back([=] {
            std::mt19937_64 g(seed + t);
            for (int i = 0; i < 20000; i++) {
                N* a = (N*)s.try_pop();
                if (!a) continue;
                if (a->owner.exchange(1)) fail("a node is taken twice");
                N* b = g() % 2 ? (N*)s.try_pop() : nullptr;
                if (b && b->owner.exchange(1)) fail("a node is taken twice");
                a->owner = 0;
                if (b) { b->owner = 0; a->next = b; s.push((char*)a, (char*)b); }
                else s.push((char*)a, (char*)a);
            }
        });
    for (auto& t : ts) t.join();
    int left = 0;
    while (s.try_pop()) left++;
    if (left != 8) fail("a node is lost");
}

static int one(int workers, u64 seed, const char* group, double secs) {
    signal(SIGALRM, hang);
    std::mt19937_64 g(seed);
    timespec a, b;
    clock_gettime(CLOCK_MONOTONIC, &a);
    do {
        alarm(40);
        if (!strcmp(group, "loop")) {
            u64 size = g() % 4 ? g() % 300 : g() % 4 ? g() % 100000 : g();
            u64 per = g() % 3 ? 1 + g() % 8 : 1 + g() % (size ? size + size / 4 + 1 : 3);
            if (!per) per = 1;
            int sleepy = g() % 3 ? 0 : 200, depth = g() % 4 ? 0 : 1;
            snprintf(NOW, sizeof NOW, "parallel_for(%llu, %llu) with %d workers", size, per, workers);
            loop(size, per, sleepy, depth);
        } else {
            snprintf(NOW, sizeof NOW, "stack, seed %llu", seed);
            stack1(g);
            if (g() % 8 == 0) stack2(g(), 4);
        }
        clock_gettime(CLOCK_MONOTONIC, &b);
    } while (b.tv_sec - a.tv_sec + 1e-9 * (b.tv_nsec - a.tv_nsec) < secs);
    return 0;
}

int main(int c, char** v) {
    if (c >= 6 && !strcmp(v[1], "one")) { int r = one(atoi(v[2]), strtoull(v[3], 0, 0), v[4], atof(v[5])); fflush(stdout); _exit(r); }
    const char* group = v[4];
    auto sub = [&](int w, u64 seed, double secs) {
        std::string ws = std::to_string(w), ss = std::to_string(seed), xs = std::to_string(secs);
        fflush(stdout);
        pid_t p = fork();
        if (!p) {
            setenv("fu_NUM_WORKER_THREADS", ws.c_str(), 1);
            execl("/proc/self/exe", v[0], "one", ws.c_str(), ss.c_str(), group, xs.c_str(), (char*)0);
            _exit(9);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (st == 0) return true;
        if (!WIFEXITED(st)) printf("FAIL the program crashed\n");
        printf("FOUND %d %llu\n", w, seed);
        return false;
    };
    if (!strcmp(v[1], "case")) return sub(atoi(v[2]), strtoull(v[3], 0, 0), 5) ? 0 : 1;
    double total = atof(v[2]);
    u64 seed = strtoull(v[3], 0, 0);
    int ws[] = { 3, 0, 1, 2, 7, 70 };
    for (int w : ws)
        if (!sub(w, seed, total / 6)) return 0;
    printf("nothing found\n");
    return 0;
}
