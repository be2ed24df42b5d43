// With -fshort-wchar, the wide functions of the C library work on the wrong unit:
// native builds of those configurations use these.
#include <stddef.h>
#define M(t) __attribute__((noinline)) t
extern "C" {
M(size_t) wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) ++n; return n; }
M(wchar_t*) wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
M(wchar_t*) wmemmove(wchar_t* d, const wchar_t* s, size_t n) { if (d < s) for (size_t i = 0; i < n; ++i) d[i] = s[i]; else while (n-- > 0) d[n] = s[n]; return d; }
M(wchar_t*) wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
M(int) wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
M(wchar_t*) wmemchr(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == c) return (wchar_t*)s + i; return nullptr; }
}
