// Do the listed findings still reproduce?  Natively run only; a failing CHECK
// means yes.
#include "common.h"
#include UNICODE_TABLE
#include "lower_ref.h"
extern "C" void known_lower() {
    for (u32 c = (u32)sym_param("first", 0); c <= (u32)sym_param("last", 0); ++c) {
        ucs4String r = ansak::toLower(ucs4String(1, c));
        CHECK(r.size() == 1 && r[0] == refLower(c), "lower-case form differs from UnicodeData");
    }
}
extern "C" void known_length() {
    const char16_t w[] = {'A', 0xd800, 0};
    CHECK((sym_param("wide", 0) ? ansak::unicodeLength(w) : ansak::unicodeLength("A\xc3")) == 1, "cut-short end counted wrongly");
}
