#include "common.h"
namespace cur {
#include UNICODE_TABLE
}
enum { kCurrent = UNICODE_VERSION };
#undef UNICODE_VERSION
#ifdef UNICODE_PREV
namespace prev {
#include UNICODE_PREV
}
#undef UNICODE_VERSION
#endif
namespace last {
#include "unicode_v16.h"
}
using namespace ansak;
template <size_t N> static bool assigned(const u32 (&t)[N], u32 c) {
    size_t lo = 0, hi = N; while (lo < hi) { size_t m = (lo + hi) / 2; if (::split(t[m] <= c)) lo = m + 1; else hi = m; }
    return lo & 1;
}
extern "C" void p25() {
    char32_t c; sym_units(&c, 4, 1, "c");
    bool now = assigned(cur::kAssignedToggles, c), r = validIf(kIsAssigned)(c); OBSERVE(r);
#ifdef UNICODE_PREV
    if (now && !assigned(prev::kAssignedToggles, c)) { sym_reach("added in this version"); CHECK(r, "a character added in this version is not assigned"); return; }
#endif
    if (!now && assigned(last::kAssignedToggles, c)) { sym_reach("added later"); CHECK(!r, "a character added in a later version is assigned"); return; }
    sym_reach("older or never");
}
extern "C" void p25_name() {
    utf8String v = getUnicodeVersionSupported(); char e[8]; size_t n = 0;
    if (kCurrent >= 10) e[n++] = '0' + kCurrent / 10;
    e[n++] = '0' + kCurrent % 10; e[n++] = '.'; e[n++] = '0'; e[n++] = '.'; e[n++] = '0';
    OBSERVE(v.size()); sym_reach("version"); CHECK(same(v, e, n), "the reported version is not that of the tables");
}
