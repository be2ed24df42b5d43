// Native implementation of the harness interface: replays recorded inputs.
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <string>
#include <vector>
#include <map>
#ifdef REPLAY_THREADS
#include <thread>
#include <atomic>
#endif
struct AssumeFail {};
static std::map<std::string, uint64_t> params;
struct In { std::string name; unsigned w; std::vector<uint64_t> v; };
static std::vector<In> ins; static size_t nextIn; static bool batch; static std::vector<uint64_t> obs; static int runNo; static std::string failMsg;
extern "C" {
void sym_units(void* p, size_t ub, size_t n, const char* name) {
    char* d = (char*)p; In* in = nextIn < ins.size() ? &ins[nextIn] : nullptr; ++nextIn;
    if (in && (in->name != name || in->v.size() != n)) { fprintf(stderr, "replay: input order differs (%s/%s)\n", in->name.c_str(), name); _exit(5); }
    for (size_t i = 0; i < n; ++i) { uint64_t v = in ? in->v[i] : 0; memcpy(d + i * ub, &v, ub); }
}
void sym_assume(bool c) { if (!c) throw AssumeFail(); }
void sym_check_(bool c, const char* w) { if (!c) { if (batch) { if (failMsg.empty()) failMsg = w; } else { printf("CHECK-FAILED %s\n", w); fflush(stdout); _exit(42); } } }
void sym_reach(const char*) {}
void sym_observe_(uint64_t v) { obs.push_back(v); }
uint64_t sym_param(const char* n, uint64_t d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
uint64_t sym_concretize(uint64_t v) { return v; }
uint64_t sym_heap_mark(void) { return 0; }
uint64_t sym_leaked(uint64_t) { return 0; }
static uint64_t failIn; static bool failed;
uint64_t sym_fail(uint64_t k) { bool f = failed; failIn = k; failed = false; return f; }
void sym_fresh(void (*f)(void*), void* a, void* out, size_t n) {
    void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) { perror("mmap"); _exit(5); }
    fflush(stdout); pid_t c = fork(); if (c < 0) { perror("fork"); _exit(5); }
    if (!c) { f(a); memcpy(m, out, n); fflush(stdout); _exit(0); }
    int st = 0; waitpid(c, &st, 0); if (WIFSIGNALED(st)) { kill(getpid(), WTERMSIG(st)); _exit(5); } if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    memcpy(out, m, n); munmap(m, n);
}
#ifdef REPLAY_THREADS
void sym_concurrently(void (*f)(void*), void* a, void (*g)(void*), void* b) {
    for (int i = 0; i < 2000 && failMsg.empty(); ++i) { std::atomic<int> go(0); auto body = [&](void (*h)(void*), void* x) { ++go; while (go < 2) {} h(x); }; std::thread t([&] { body(f, a); }), u([&] { body(g, b); }); t.join(); u.join(); }
}
#else
void sym_concurrently(void (*f)(void*), void* a, void (*g)(void*), void* b) { f(a); g(b); }
#endif
}
#ifdef REPLAY_EARLY
// The entry runs while the global objects of this file and the harness are
// constructed and those of the library are not; sym_late runs this program once
// more, in main, for what the call gives then.
static char** argVec;
extern "C" void sym_late(void (*f)(void*), void* a, void* out, size_t n) {
    if (const char* fd = getenv("REPLAY_LATE")) { f(a); size_t k = write(atoi(fd), out, n); _exit(k == n ? 0 : 5); }
    int p[2]; if (pipe(p)) _exit(5); fflush(stdout); pid_t c = fork();
    if (!c) { close(p[0]); char b[16]; snprintf(b, sizeof b, "%d", p[1]); setenv("REPLAY_LATE", b, 1); snprintf(b, sizeof b, "%d", runNo); setenv("REPLAY_RUN", b, 1); execv("/proc/self/exe", argVec); _exit(5); }
    close(p[1]); size_t got = 0; ssize_t k; while (got < n && (k = read(p[0], (char*)out + got, n - got)) > 0) got += k;
    close(p[0]); int st = 0; waitpid(c, &st, 0); if (got != n || st) _exit(WIFEXITED(st) && WEXITSTATUS(st) ? WEXITSTATUS(st) : 5);
}
#endif
#ifdef REPLAY_COST
#include <new>
#include <time.h>
static uint64_t allocated;
struct Longer { Longer() { params["longer"] = 4096; } };
static Longer longer;      // but for batches
static void* counted(size_t n) { allocated += n; return malloc(n ? n : 1); }
void* operator new(size_t n) { if (void* p = counted(n)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { if (void* p = counted(n)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return counted(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return counted(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
extern "C" void sym_cost(void (*f)(void*), void* a, uint64_t* time, uint64_t* bytes) {
    if (batch) { uint64_t b = allocated; f(a); *bytes = allocated - b; *time = 0; return; }
    *time = ~0ull;
    for (int i = 0; i < 9; ++i) {
        uint64_t b = allocated; timespec s, e; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &s); f(a); clock_gettime(CLOCK_THREAD_CPUTIME_ID, &e);
        *bytes = allocated - b; uint64_t t = uint64_t(e.tv_sec - s.tv_sec) * 1000000000ull + uint64_t(e.tv_nsec) - uint64_t(s.tv_nsec); if (t < *time) *time = t;
    }
}
#else
extern "C" void sym_cost(void (*f)(void*), void* a, uint64_t* time, uint64_t* bytes) { f(a); *time = *bytes = 0; }
#endif
#ifdef REPLAY_FAULTS
#include <new>
static void* fallible(size_t n) { if (failIn && --failIn == 0) { failed = true; return nullptr; } return malloc(n ? n : 1); }
void* operator new(size_t n) { if (void* p = fallible(n)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { if (void* p = fallible(n)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fallible(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return fallible(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
#ifdef REPLAY_LOCALE
#include <errno.h>
extern "C" uint64_t sym_surroundings(uint64_t k);
#else
extern "C" uint64_t sym_surroundings(uint64_t) { return 0; }
#endif
#define STR2(x) #x
extern "C" void REPLAY_ENTRY(void);
static int drive(int argc, char** argv) {
    FILE* f = fopen(argv[1], "r"); if (!f) { perror("replay"); return 5; }
    batch = argc > 2 && !strcmp(argv[2], "batch"); if (batch) params.erase("longer");
    char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        char* sv; char* t = strtok_r(line, " \n", &sv); if (!t) continue;
        if (!strcmp(t, "param")) { char* k = strtok_r(0, " \n", &sv); char* v = strtok_r(0, " \n", &sv); params[k] = strtoull(v, 0, 0); }
        else if (!strcmp(t, "input")) { In in; in.name = strtok_r(0, " \n", &sv); in.w = atoi(strtok_r(0, " \n", &sv)); while ((t = strtok_r(0, " \n", &sv))) in.v.push_back(strtoull(t, 0, 0)); ins.push_back(in); }
        else if (!strcmp(t, "run")) {
            ++runNo; if (getenv("REPLAY_RUN") && runNo != atoi(getenv("REPLAY_RUN"))) { ins.clear(); continue; }
            nextIn = 0; obs.clear(); failMsg.clear(); const char* st = "ok";
            try { REPLAY_ENTRY(); } catch (AssumeFail&) { st = "assume"; }
            catch (...) { printf("CHECK-FAILED exception escaped\n"); fflush(stdout); if (!batch) _exit(42); st = "exception"; }
            if (batch) { printf("run %s %s", st, failMsg.empty() ? "-" : "FAILED"); for (auto v : obs) printf(" %llu", (unsigned long long)v); printf("\n"); }
            else if (!strcmp(st, "assume")) { printf("ASSUME-FALSE\n"); fflush(stdout); _exit(6); }
            ins.clear();
        }
    }
    free(line); fclose(f);
    return 0;
}
#ifdef REPLAY_EARLY
static char cmdline[65536]; static char* argArr[64];
struct Early { Early() {
    FILE* f = fopen("/proc/self/cmdline", "r"); size_t n = fread(cmdline, 1, sizeof cmdline - 1, f), k = 0; fclose(f);
    for (size_t i = 0; i < n && k < 63; i += strlen(cmdline + i) + 1) argArr[k++] = cmdline + i;
    argVec = argArr; if (getenv("REPLAY_LATE")) return;
    int rc = drive((int)k, argArr); fflush(stdout); _exit(rc);
} };
static Early early;
int main(int argc, char** argv) { return drive(argc, argv); }
#else
int main(int argc, char** argv) { return drive(argc, argv); }
#endif
