// Replay: the locale model of the symbolic executor in place of the C library's.
#undef __NO_INLINE__
#define __NO_INLINE__ 1
#include <errno.h>
#include <stdint.h>
#undef toupper
#include "surroundings.h"
extern "C" uint64_t sym_surroundings(uint64_t k) { rt_locale = (int)k; errno = k ? ERANGE : 0; return (uint64_t)rt_changed; }
// the tables behind the inlined versions
static int low[384], up[384]; static unsigned short cls[384];
extern "C" const int** __ctype_tolower_loc(void) noexcept { static const int* p = low + 128; for (int i = -128; i < 256; ++i) low[i + 128] = tolower(i); return &p; }
extern "C" const int** __ctype_toupper_loc(void) noexcept { static const int* p = up + 128; for (int i = -128; i < 256; ++i) up[i + 128] = toupper(i); return &p; }
extern "C" const unsigned short** __ctype_b_loc(void) noexcept {
    static const unsigned short* p = cls + 128; int (*f[])(int) = {isupper, islower, isalpha, isdigit, isxdigit, isspace, isprint, isgraph, isblank, iscntrl, ispunct, isalnum};
    for (int i = -128; i < 256; ++i) { unsigned v = 0; for (int b = 0; b < 12; ++b) if (f[b](i)) v |= b < 8 ? (1u << b) << 8 : (1u << b) >> 8; cls[i + 128] = (unsigned short)v; } return &p; }
