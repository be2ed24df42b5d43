#include "common.h"
using namespace ansak;
template <class C> static void splitIt() {
    Input<C> s; C d; sym_units(&d, sizeof(C), 1, "delim"); std::basic_string<C> in = s.str();
    { Small<C> h(sym_param("hist", 0), "earlier"); if (h.n) { auto x = split(h.str(), C(h[0] + 1)); OBSERVE(x.size()); } }
    auto p = split(in, d); OBSERVE(p.size());
    // expected pieces, by hand
    if (!s.n) { sym_reach("empty string"); CHECK(p.empty(), "splitting an empty string gives pieces"); }
    else {
        size_t piece = 0, start = 0;
        for (size_t i = 0; i <= s.n; ++i) {
            if (i < s.n && !::split(s[i] == d)) continue;
            CHECK(piece < p.size(), "split gives too few pieces");
            CHECK(same(p[piece], s.p + start, i - start), "a piece differs from the text between delimiters");
            OBSERVE(p[piece].size()); ++piece; start = i + 1;
        }
        CHECK(p.size() == piece, "split gives too many pieces");
        if (piece > 1) sym_reach("several pieces"); else sym_reach("one piece");
    }
    std::basic_string<C> j = join(p, d);
    CHECK(same(j, s.p, s.n), "join does not undo split"); CHECK(same(in, s.p, s.n), "split modifies its input");
}
template <class C> static void joinIt() {
    size_t k = pick("pieces", (u32)sym_param("k", 2), (u32)sym_param("khi", 0)); C d; sym_units(&d, sizeof(C), 1, "delim");
    std::vector<std::basic_string<C>> v; size_t hi = sym_param("each", 2), total = 0; bool has = false;
    for (size_t i = 0; i < k; ++i) {
        size_t n = sym_param("pad", 0) + pick("size", 0, (u32)hi); Small<C> x(n, "piece"); total += n;
        for (size_t j = 0; j < n; ++j) has |= x[j] == d;
        v.push_back(x.str());
    }
    std::vector<std::basic_string<C>> keep = v;
    std::basic_string<C> r = join(v, d); observe(r);
    size_t e = total + (k ? k - 1 : 0), at = 0; CHECK(r.size() == e, "join gives another number of characters");
    for (size_t i = 0; i < k; ++i) {
        if (i) CHECK(r[at++] == d, "join puts something else than the delimiter between pieces");
        for (size_t j = 0; j < keep[i].size(); ++j) CHECK(r[at++] == keep[i][j], "join changes a piece");
    }
    CHECK(v.size() == k, "join modifies its input");
    if (::split(has) || r.empty()) { sym_reach("not invertible"); return; }
    sym_reach("invertible");
    auto b = split(r, d); bool ok = b.size() == k; if (ok) for (size_t i = 0; i < k; ++i) ok &= sameAs(b[i], keep[i]);
    CHECK(ok, "split does not undo join");
}
extern "C" void p19_split8() { splitIt<char>(); }
extern "C" void p19_split16() { splitIt<char16_t>(); }
extern "C" void p19_split32() { splitIt<char32_t>(); }
// other integral types
extern "C" void p19_splitb() { splitIt<unsigned char>(); }
extern "C" void p19_splits() { splitIt<short>(); }
extern "C" void p19_splitl() { splitIt<long>(); }
extern "C" void p19_joinb() { joinIt<unsigned char>(); }
extern "C" void p19_joins() { joinIt<short>(); }
extern "C" void p19_joinl() { joinIt<long>(); }
extern "C" void p19_splitw() { splitIt<wchar_t>(); }
extern "C" void p19_join8() { joinIt<char>(); }
extern "C" void p19_join16() { joinIt<char16_t>(); }
extern "C" void p19_join32() { joinIt<char32_t>(); }
extern "C" void p19_joinw() { joinIt<wchar_t>(); }
// n delimiters in a row, one other character among them
template <class C> static void many() {
    size_t n = pick("count", (u32)sym_param("n", 1), (u32)sym_param("nhi", 0)), at = sym_param("few", 0) ? n / 2 * pick("at", 0, 2) : pick("at", 0, (u32)n); C d, c; sym_units(&d, sizeof(C), 1, "delim"); sym_units(&c, sizeof(C), 1, "other"); sym_assume(c != d);
    std::basic_string<C> s(n, d); s.insert(at, 1, c);
    auto p = split(s, d); OBSERVE(p.size()); sym_reach("many pieces");
    CHECK(p.size() == n + 1, "wrong number of pieces");
    for (size_t i = 0; i <= n; ++i) CHECK(i == at ? p[i].size() == 1 && p[i][0] == c : p[i].empty(), "wrong piece");
    CHECK(sameAs(join(p, d), s), "join does not undo split");
}
extern "C" void p19_many8() { many<char>(); }
extern "C" void p19_many16() { many<char16_t>(); }
extern "C" void p19_many32() { many<char32_t>(); }
