#include "calls.h"
// Run with the library's own global objects not constructed yet (parameter early).
struct Late : Fresh { explicit Late(const Call* c_) : Fresh(c_) {} void run() { sym_late(work, this, out, sizeof *out); } };
extern "C" void p31() {
    u32 op = P("f", 0);
    u32 range = hasRange(op) ? pick("range", 1, 5) : 1, pred = hasPred(op) ? pick("pred", 1, 8) : 1;
    Call f(op, P("fk", 0), P("fl", 1), range, pred, "f-char", "f-window", P("times", 1));
    Late e(&f); e.run();
    Res r; f.run(r); OBSERVE(r.size());
    CHECK(e.is(r), "a call made while global objects are being constructed gives another result than later"); sym_reach("called early");
    CHECK(f.intact(), "an argument was modified");
}
