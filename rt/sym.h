// Harness interface. The same harness source is executed symbolically (symex
// provides these functions) and natively (replay.cpp provides them).
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
void sym_units(void* p, size_t unitBytes, size_t count, const char* name); // make `count` units symbolic
void sym_assume(bool c);
void sym_check_(bool c, const char* what);
void sym_reach(const char* label);            // vacuity witness
void sym_observe_(uint64_t v);                // value compared with the native run
uint64_t sym_param(const char* name, uint64_t dflt);
uint64_t sym_concretize(uint64_t v);
uint64_t sym_heap_mark(void);          // for sym_leaked
uint64_t sym_leaked(uint64_t mark);    // blocks allocated since then and now unreachable
uint64_t sym_fail(uint64_t k);           // the k-th allocation from now fails (0: none); has one failed since the last call?
void sym_fresh(void (*f)(void*), void* a, void* out, size_t n); // f(a) as if nothing had been called; only the n bytes at out stay
void sym_late(void (*f)(void*), void* a, void* out, size_t n);  // the same in a process whose global objects are all constructed
uint64_t sym_surroundings(uint64_t k);       // 0: C locale, 1: another locale, environment and errno; has the library changed them?
void sym_cost(void (*f)(void*), void* a, uint64_t* time, uint64_t* bytes); // f(a); instructions and bytes moved (natively nanoseconds); bytes allocated
void sym_concurrently(void (*f)(void*), void* a, void (*g)(void*), void* b); // two threads
}
#define CHECK(c, what) sym_check_((c), what)
#define OBSERVE(v) sym_observe_((uint64_t)(v))
