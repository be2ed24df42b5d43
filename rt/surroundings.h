// What a library can ask of its surroundings: the C locale (0), or a Turkish one in
// a single-byte character set with its environment (1). Used by the symbolic
// executor and, for the property about the locale, by the replay program.
#include <stddef.h>
#include <wchar.h>
#include <string.h>
extern "C" {
int rt_locale, rt_changed;
static int rt_u(int c) { return c < -1 ? c + 256 : c; }
static int rt_hi(int c) { return rt_locale && c >= 0xC0 && c <= 0xFF && c != 0xD7 && c != 0xF7; }
int tolower(int c) {
    if (!rt_locale) return c >= 'A' && c <= 'Z' ? c + 32 : c;
    c = rt_u(c); return c == 'I' ? 0xFD : c == 0xDD ? 'i' : (c >= 'A' && c <= 'Z') || (c >= 0xC0 && c <= 0xDE && c != 0xD7) ? c + 32 : c; }
int toupper(int c) {
    if (!rt_locale) return c >= 'a' && c <= 'z' ? c - 32 : c;
    c = rt_u(c); return c == 'i' ? 0xDD : c == 0xFD ? 'I' : (c >= 'a' && c <= 'z') || (c >= 0xE0 && c <= 0xFE && c != 0xF7) ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13) || (rt_locale && (rt_u(c) == 0x85 || rt_u(c) == 0xA0)); }
int isblank(int c) { return c == ' ' || c == 9 || (rt_locale && rt_u(c) == 0xA0); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return (c >= 'A' && c <= 'Z') || (rt_hi(rt_u(c)) && rt_u(c) < 0xDF); }
int islower(int c) { return (c >= 'a' && c <= 'z') || (rt_hi(rt_u(c)) && rt_u(c) >= 0xDF); }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127 || (rt_locale && rt_u(c) >= 128 && rt_u(c) < 160); }
int isprint(int c) { return (c >= 32 && c < 127) || (rt_locale && rt_u(c) >= 160); }
int isgraph(int c) { return (c > 32 && c < 127) || (rt_locale && rt_u(c) > 160); }
int isxdigit(int c) { return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isascii(int c) { return (unsigned)c < 128; }
int toascii(int c) { return c & 127; }
static int rt_cap(wint_t c) { return (c >= 0xC0 && c <= 0xDE && c != 0xD7) || (c >= 0x391 && c <= 0x3A9) || (c >= 0x410 && c <= 0x42F); }
wint_t towlower(wint_t c) { if (rt_locale && (c == 'I' || c == 0x130)) return c == 'I' ? 0x131 : 'i'; return (c >= 'A' && c <= 'Z') || (rt_locale && rt_cap(c)) ? c + 32 : c; }
wint_t towupper(wint_t c) { if (rt_locale && (c == 'i' || c == 0x131)) return c == 'i' ? 0x130 : 'I'; return (c >= 'a' && c <= 'z') || (rt_locale && rt_cap(c - 32)) ? c - 32 : c; }
static int rt_wspace(wint_t c) { return c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) || c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000; }
int iswspace(wint_t c) { return (c < 128 && isspace((int)c)) || (rt_locale && rt_wspace(c)); }
int iswblank(wint_t c) { return (c < 128 && isblank((int)c)) || (rt_locale && rt_wspace(c)); }
int iswdigit(wint_t c) { return c < 128 && isdigit((int)c); }
int iswupper(wint_t c) { return (c < 128 && isupper((int)c)) || (rt_locale && (rt_cap(c) || c == 0x130)); }
int iswlower(wint_t c) { return (c < 128 && islower((int)c)) || (rt_locale && (rt_cap(c - 32) || c == 0x131)); }
int iswalpha(wint_t c) { return iswupper(c) || iswlower(c) || (rt_locale && c >= 0x4E00 && c <= 0x9FFF); }
int iswalnum(wint_t c) { return iswalpha(c) || iswdigit(c); }
int iswcntrl(wint_t c) { return (c < 128 && iscntrl((int)c)) || (rt_locale && ((c >= 128 && c < 160) || c == 0x2028 || c == 0x2029)); }
int iswprint(wint_t c) { return (c < 128 && isprint((int)c)) || (rt_locale && c >= 160 && c < 0x110000 && c != 0x2028 && c != 0x2029); }
int iswgraph(wint_t c) { return iswprint(c) && !iswspace(c); }
int iswpunct(wint_t c) { return iswgraph(c) && !iswalnum(c); }
int strcasecmp(const char* a, const char* b) { for (size_t i = 0;; ++i) { int p = tolower((unsigned char)a[i]), q = tolower((unsigned char)b[i]); if (p != q) return p < q ? -1 : 1; if (!p) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; ++i) { int p = tolower((unsigned char)a[i]), q = tolower((unsigned char)b[i]); if (p != q) return p < q ? -1 : 1; if (!p) return 0; } return 0; }
int strcoll(const char* a, const char* b) { return rt_locale ? strcasecmp(a, b) : strcmp(a, b); }
int wcscasecmp(const wchar_t* a, const wchar_t* b) { for (size_t i = 0;; ++i) { wint_t p = towlower(a[i]), q = towlower(b[i]); if (p != q) return p < q ? -1 : 1; if (!p) return 0; } }
int wcscoll(const wchar_t* a, const wchar_t* b) { return rt_locale ? wcscasecmp(a, b) : wcscmp(a, b); }
// multi-byte characters: one byte each, ASCII only in the C locale
wint_t btowc(int c) { return c == -1 || (c >= 128 && !rt_locale) ? (wint_t)-1 : (wint_t)c; }
int wctob(wint_t c) { return c < 128 || (c < 256 && rt_locale) ? (int)c : -1; }
size_t mbrtowc(wchar_t* w, const char* s, size_t n, mbstate_t*) { if (!s) return 0; if (!n) return (size_t)-2; unsigned char c = *s; if (c >= 128 && !rt_locale) return (size_t)-1; if (w) *w = c; return c != 0; }
size_t wcrtomb(char* s, wchar_t w, mbstate_t*) { if (!s) return 1; int c = wctob((wint_t)w); if (c < 0) return (size_t)-1; *s = (char)c; return 1; }
int mbtowc(wchar_t* w, const char* s, size_t n) { return (int)mbrtowc(w, s, n, nullptr); }
int wctomb(char* s, wchar_t w) { return s ? (int)wcrtomb(s, w, nullptr) : 0; }
int mblen(const char* s, size_t n) { return (int)mbrtowc(nullptr, s, n, nullptr); }
size_t mbstowcs(wchar_t* d, const char* s, size_t n) { size_t i = 0; for (; !d || i < n; ++i) { wchar_t w; if (mbrtowc(&w, s + i, 1, nullptr) == (size_t)-1) return (size_t)-1; if (d) d[i] = w; if (!w) break; } return i; }
size_t wcstombs(char* d, const wchar_t* s, size_t n) { size_t i = 0; for (; !d || i < n; ++i) { char c; if (wcrtomb(&c, s[i], nullptr) == (size_t)-1) return (size_t)-1; if (d) d[i] = c; if (!c) break; } return i; }
size_t __ctype_get_mb_cur_max(void) { return 1; }
char* setlocale(int, const char* s) { if (s) rt_changed = 1; return (char*)(s && *s ? s : rt_locale ? "tr_TR.ISO8859-9" : "C"); }
char* getenv(const char* s) { return !rt_locale ? nullptr : (char*)(!strncmp(s, "L", 1) ? "tr_TR.ISO8859-9" : "1"); }
char* secure_getenv(const char* s) { return getenv(s); }
int setenv(const char*, const char*, int) { rt_changed = 1; return 0; }
int putenv(char*) { rt_changed = 1; return 0; }
}
