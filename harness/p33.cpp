#include "calls.h"
// The cost of a call on n, 4n and 16n characters: each step costs about four times the
// one before. Natively nanoseconds of the fastest of several calls.
struct Costed { const Call* c; u64 size; static void work(void* p) { Costed& j = *(Costed*)p; Res r; j.c->run(r); j.size = r.size(); } };
static void run(const Call& c, u64& t, u64& b) { Costed j = {&c, 0}; sym_cost(Costed::work, &j, &t, &b); OBSERVE(j.size); }
// n times the one character that `m` begins with; the unit after that character in `m` after them or before them
struct Long : Call {
    Long(const Call& m, u32 k, u32 times, u32 place) : Call(m.op, 0, k * times + (place != 0), 5, 1, nullptr, nullptr) { fill(a, m.a, k, place); fill(b, m.b, k, place); fill(c, m.c, k, place); }
    template <class T> static void fill(T& t, const T& m, u32 k, u32 place) {
        size_t z = place == 2, n = t.n - (place == 1);
        if (m.n) for (size_t i = 0; i < t.n; ++i) t.copy.p[i] = t.p[i] = t.s[i] = i < z || i >= n ? m.p[k] : m.p[(i - z) % k];
    }
};
extern "C" void p33() {
    u32 op = P("f", 0), kind = P("fk", 1), n = P("longer", P("n", 1024)), q = P("q", 4);
    u32 k = op < k8 ? fillLen(char(), kind) : op < k8 + k16 ? fillLen(char16_t(), kind) : fillLen(char32_t(), kind);
    u32 place = P("place", 0); Call f(op, kind, place != 0, 5, 1, "f-char", "f-window");
    u64 t[3], b[3], m = n; { Long w(f, k, 4, place); u64 x, y; run(w, x, y); }
    for (int i = 0; i < 3; ++i, m *= q) { Long w(f, k, (u32)m, place); run(w, t[i], b[i]); CHECK(w.intact(), "an argument was modified"); }
    if (P("show", 0)) for (int i = 0; i < 3; ++i) { OBSERVE(t[i]); OBSERVE(b[i]); }
    CHECK(4 * b[2] <= 7 * q * b[1] + 8192, "memory that grows faster than the length of the text");
    CHECK(4 * t[2] <= 7 * q * t[1] + 40000, "time that grows faster than the length of the text");
    sym_reach("three lengths");
}
