#include "common.h"
#include UNICODE_TABLE
#include "lower_ref.h"
extern "C" void p13() {
    char32_t c; sym_units(&c, 4, 1, "c");
    u32 e = refLower(c); u32 k = knownLower(c, e);
    if (e != k) sym_reach("listed finding");
    ucs4String s(1, c); ucs4String r = ansak::toLower(s);
    OBSERVE(r.size()); OBSERVE(r[0]);
    if (e != c) sym_reach("has a lower-case form"); else sym_reach("has none");
    CHECK(r.size() == 1, "lower-casing changes the number of characters");
    CHECK((r[0] == e) | ((k != e) & (r[0] == k)), "lower-case form differs from the character database");
}
