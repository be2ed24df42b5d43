#include "common.h"
#include "codepages.h"
using namespace ansak;
// the expected result; false: empty
static bool expected(const S8& s, size_t n, const u16* page, Units<char>& o) {
    for (size_t i = 0; i < n; ++i) {
        u32 b = (u8)s[i];
        if (b >= 0x80) { b = page[b - 0x80]; if (b == 0) return false; }
        put(o, b);
    }
    return true;
}
extern "C" void p22() {
    u32 e; sym_units(&e, 4, 1, "encoding");
    u64 k = sym_param("enc", 0);            // 0: declared as Unicode, 1, 2: a code page, 3: any other value
    sym_assume(k < 3 ? e == k : (e != 0) & (e != 1) & (e != 2));
    { Small<char> h(sym_param("hist", 0), "earlier"); if (h.n) { u32 e0 = pick("earlier-encoding", 0, 3); auto x = toUtf8(h.p, SourceEncoding((int)e0)); OBSERVE(x.size()); } }
    Input<char> s; size_t n = s.cstrlen();
    utf8String r = toUtf8(s.p, SourceEncoding((int)e)); observe(r);
    if (k == 0) { CHECK(same(r, s.p, n), "a string declared as Unicode is not returned as it is"); sym_reach("as it is"); return; }
    if (k == 3) { CHECK(r.empty(), "an unknown source encoding is converted"); sym_reach("unknown encoding"); return; }
    Units<char> o(3 * n);
    if (!expected(s, n, k == 1 ? kCp1252 : kCp1250, o)) { CHECK(r.empty(), "an unassigned byte is converted"); sym_reach("unassigned byte"); return; }
    CHECK(same(r, o.v, o.n), "the characters of the code page are not converted exactly"); sym_reach("converted");
}
extern "C" void p22_null() { u32 e; sym_units(&e, 4, 1, "encoding"); CHECK(toUtf8((const char*)nullptr, SourceEncoding((int)e)).empty(), "conversion of a null pointer"); sym_reach("null pointer"); }
