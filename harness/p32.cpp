#include "calls.h"
// the same call in the C locale, and with another locale, environment and errno
extern "C" void p32() {
    u32 op = P("f", 0);
    u32 range = hasRange(op) ? pick("range", 1, 5) : 1, pred = hasPred(op) ? pick("pred", 1, 8) : 1;
    Call f(op, P("fk", 0), P("fl", 1), range, pred, "f-char", "f-window", P("times", 1));
    Fresh e(&f); Res a, b; u64 changed = 0;
    if (P("first", 0)) { sym_surroundings(1); e.run(); changed |= sym_surroundings(0); } else e.run();
    if (!P("first", 0)) sym_surroundings(1);
    f.run(a); changed |= sym_surroundings(0); OBSERVE(a.size());
    CHECK(e.is(a), "the result depends on the locale or the environment"); CHECK(changed == 0, "a call changes the locale or the environment");
    if (!P("first", 0)) { f.run(b); CHECK(e.is(b), "the result depends on the locale of an earlier call"); }
    CHECK(f.intact(), "an argument was modified"); sym_reach("another locale");
}
