// Library functions that libstdc++/libc keep out of line, as plain code for the
// symbolic executor (compiled with -fno-builtin). What depends on the locale is in surroundings.h.
#include <stddef.h>
#include <stdint.h>
#include <wchar.h>
#include <list>
#include <map>
#include <mutex>
#include <stdexcept>
#include <unordered_map>
#include <functional>
#include "surroundings.h"
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) ++n; return n; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char* p = (const unsigned char*)a; const unsigned char* q = (const unsigned char*)b; for (size_t i = 0; i < n; ++i) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
int strcmp(const char* a, const char* b) { size_t i = 0; for (;; ++i) { unsigned char p = a[i], q = b[i]; if (p != q) return p < q ? -1 : 1; if (!p) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; ++i) { unsigned char p = a[i], q = b[i]; if (p != q) return p < q ? -1 : 1; if (!p) return 0; } return 0; }
char* strcpy(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i])) ++i; return d; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
int wcscmp(const wchar_t* a, const wchar_t* b) { for (size_t i = 0;; ++i) { if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; if (!a[i]) return 0; } }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
size_t strspn(const char* s, const char* set) { size_t i = 0; for (; s[i]; ++i) { size_t j = 0; while (set[j] && set[j] != s[i]) ++j; if (!set[j]) break; } return i; }
size_t strcspn(const char* s, const char* set) { size_t i = 0; for (; s[i]; ++i) { size_t j = 0; while (set[j] && set[j] != s[i]) ++j; if (set[j]) break; } return i; }
int wcsncmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; ++i) { if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { if (d < s) for (size_t i = 0; i < n; ++i) d[i] = s[i]; else for (size_t i = n; i-- > 0;) d[i] = s[i]; return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
void* mempcpy(void* d, const void* s, size_t n) { char* p = (char*)d; for (size_t i = 0; i < n; ++i) p[i] = ((const char*)s)[i]; return p + n; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { ++d; ++s; } return d; }
char* strncat(char* d, const char* s, size_t n) { size_t k = strlen(d), i = 0; for (; i < n && s[i]; ++i) d[k + i] = s[i]; d[k + i] = 0; return d; }
wchar_t* wcscpy(wchar_t* d, const wchar_t* s) { for (size_t i = 0; (d[i] = s[i]); ++i) {} return d; }
size_t wcsnlen(const wchar_t* s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
void* malloc(size_t);
char* strdup(const char* s) { char* d = (char*)malloc(strlen(s) + 1); if (d) strcpy(d, s); return d; }
}
// C++-style overload names of memchr & co share one symbol
extern "C" void* memchr_impl(const void* s, int c, size_t n) __asm__("memchr");
extern "C" void* memchr_impl(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
extern "C" void* memrchr_impl(const void* s, int c, size_t n) __asm__("memrchr");
extern "C" void* memrchr_impl(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; while (n--) if (p[n] == (unsigned char)c) return (void*)(p + n); return nullptr; }
extern "C" void* rawmemchr_impl(const void* s, int c) __asm__("rawmemchr");
extern "C" void* rawmemchr_impl(const void* s, int c) { const unsigned char* p = (const unsigned char*)s; while (*p != (unsigned char)c) ++p; return (void*)p; }
extern "C" char* strchrnul_impl(const char* s, int c) __asm__("strchrnul");
extern "C" char* strchrnul_impl(const char* s, int c) { while (*s && *s != (char)c) ++s; return (char*)s; }
extern "C" char* strchr_impl(const char* s, int c) __asm__("strchr");
extern "C" char* strchr_impl(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
extern "C" char* strrchr_impl(const char* s, int c) __asm__("strrchr");
extern "C" char* strrchr_impl(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
extern "C" char* strpbrk_impl(const char* s, const char* set) __asm__("strpbrk");
extern "C" char* strpbrk_impl(const char* s, const char* set) { s += strcspn(s, set); return *s ? (char*)s : nullptr; }
extern "C" char* strstr_impl(const char* h, const char* n) __asm__("strstr");
extern "C" char* strstr_impl(const char* h, const char* n) { for (;; ++h) { size_t i = 0; while (n[i] && h[i] == n[i]) ++i; if (!n[i]) return (char*)h; if (!*h) return nullptr; } }
extern "C" wchar_t* wmemchr_impl(const wchar_t* s, wchar_t c, size_t n) __asm__("wmemchr");
extern "C" wchar_t* wmemchr_impl(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == c) return (wchar_t*)(s + i); return nullptr; }
extern "C" wchar_t* wcschr_impl(const wchar_t* s, wchar_t c) __asm__("wcschr");
extern "C" wchar_t* wcschr_impl(const wchar_t* s, wchar_t c) { for (;; ++s) { if (*s == c) return (wchar_t*)s; if (!*s) return nullptr; } }

namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const pos) noexcept { _M_next = pos; _M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
        _List_node_base* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
}
static _Rb_tree_node_base* incr(_Rb_tree_node_base* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
static _Rb_tree_node_base* decr(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return incr(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return incr(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return decr(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    _Rb_tree_node_base* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y; }
static void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    _Rb_tree_node_base* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent;
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base* const g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) {
            _Rb_tree_node_base* const u = g->_M_right;
            if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); }
        } else {
            _Rb_tree_node_base* const u = g->_M_left;
            if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); }
        }
    }
    root->_M_color = _S_black;
}
// erasing leaves the tree unbalanced, which is not observable
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base* sub;
    if (z->_M_left && z->_M_right) {                    // the successor takes z's place
        _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y != z->_M_right) { y->_M_parent->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = y->_M_parent; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
        y->_M_left = z->_M_left; z->_M_left->_M_parent = y; y->_M_color = z->_M_color; sub = y;
    } else sub = z->_M_left ? z->_M_left : z->_M_right;
    if (sub) sub->_M_parent = z->_M_parent;
    if (root == z) root = sub; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = sub; else z->_M_parent->_M_right = sub;
    if (root) { root->_M_color = _S_black; _Rb_tree_node_base* l = root; while (l->_M_left) l = l->_M_left; h._M_left = l; l = root; while (l->_M_right) l = l->_M_right; h._M_right = l; }
    else h._M_left = h._M_right = &h;
    return z;
}
}

// f(a) in a process of its own: of its effects only the bytes at `out` stay
extern "C" { void sym_snapshot(void); void sym_restore(void* out, size_t n); }
extern "C" void sym_fresh(void (*f)(void*), void* a, void* out, size_t n) { sym_snapshot(); f(a); sym_restore(out, n); }
static int rt_errno;
extern "C" int* __errno_location(void) { return &rt_errno; }
extern "C" uint64_t sym_surroundings(uint64_t k) { rt_locale = (int)k; rt_errno = k ? 34 : 0; return (uint64_t)rt_changed; }
extern "C" { uint64_t sym_cost_(void); uint64_t sym_bytes_(void); }
extern "C" void sym_cost(void (*f)(void*), void* a, uint64_t* time, uint64_t* bytes) { uint64_t t = sym_cost_(), b = sym_bytes_(); f(a); *time = sym_cost_() - t; *bytes = sym_bytes_() - b; }
extern "C" void sym_run_ctors(void);
extern "C" void sym_late(void (*f)(void*), void* a, void* out, size_t n) { sym_snapshot(); sym_run_ctors(); f(a); sym_restore(out, n); }
// two threads; a schedule that runs g inside f is chosen by the engine
extern "C" { void sym_thread(uint64_t); void sym_preempt(void (*)(void*), void*); uint64_t sym_preempted(void); void sym_region_begin(void); void sym_region_end(void); }
extern "C" void sym_concurrently(void (*f)(void*), void* a, void (*g)(void*), void* b) {
    sym_preempt(g, b); sym_thread(1); f(a); sym_thread(2); if (!sym_preempted()) g(b); sym_thread(0);
}
extern "C" int pthread_once(int* flag, void (*f)(void)) { if (!__atomic_load_n(flag, __ATOMIC_ACQUIRE)) { sym_region_begin(); *flag = 1; f(); sym_region_end(); } return 0; }
// std::call_once of libstdc++
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); extern "C" void __once_proxy(void) { __once_call(); } }

// unordered containers: any sequence of bucket counts is observably equivalent here
namespace std { namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[] = {1, 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731}; for (size_t q : p) if (q >= n) { _M_next_resize = q; return q; } size_t q = n | 1; _M_next_resize = q; return q; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (elt + ins > bkt || bkt == 1) { size_t w = (elt + ins) * 2; if (w < 11) w = 11; return pair<bool, size_t>(true, _M_next_bkt(w)); } return pair<bool, size_t>(false, 0); }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* b = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull; return h; }
// the standard exceptions, without their texts
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "exception"; }
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const string&) : _M_p("") {}
__cow_string::__cow_string(const char*, size_t) : _M_p("") {}
__cow_string::__cow_string(const __cow_string&) noexcept : _M_p("") {}
__cow_string& __cow_string::operator=(const __cow_string&) noexcept { return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&&) noexcept : _M_p("") {}
#define TOP(x) x::x(const char*) : _M_msg() {} x::x(const string&) : _M_msg() {} x::x(const x& o) noexcept : exception(o), _M_msg() {} x::~x() noexcept {} const char* x::what() const noexcept { return "exception"; }
#define SUB(x, b) x::x(const char* s) : b(s) {} x::x(const string& s) : b(s) {} x::~x() noexcept {}
TOP(logic_error) TOP(runtime_error)
SUB(domain_error, logic_error) SUB(invalid_argument, logic_error) SUB(length_error, logic_error) SUB(out_of_range, logic_error)
SUB(range_error, runtime_error) SUB(overflow_error, runtime_error) SUB(underflow_error, runtime_error)
}
