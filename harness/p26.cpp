#include "calls.h"
static u32 opG() { return pick("g", P("g0", 0), P("g1", kOps - 1)); }
static void finish(const Res& r) { u64 h = r.size(); for (u32 x : r) h = h * 31 + x; OBSERVE(r.size()); (void)h; }
// f(x), g(y), f(x), or g(y), f(x): f gives what it gives in a process of its own
extern "C" void p26_hist() {
    u32 fo = P("f", 0), go = opG();
    u32 fr = hasRange(fo) ? pick("frange", 1, 5) : 1, gr = hasRange(go) ? P("grange", 5) : 1;
    Call f(fo, P("fk", 0), P("fl", 2), fr, hasPred(fo) ? P("fq", 1) : 1, "f-char", "f-window", P("ftimes", 1));
    Call g(go, P("gk", 0), P("gl", 1), gr, hasPred(go) ? P("gq", 2) : 1, "g-char", "g-window", P("gtimes", 1));
    Fresh e(&f); Res a, x, b; if (P("first", 1)) f.run(a); else e.run();
    for (u32 i = 0; i < P("reps", 1); ++i) { x.clear(); g.run(x); }
    f.run(b); finish(b);
    CHECK(P("first", 1) ? equal(a, b) : e.is(b), "the result depends on earlier calls"); CHECK(f.intact() && g.intact(), "an argument was modified"); sym_reach("repeated");
}
// the same buffers with other contents
extern "C" void p26_reuse() {
    u32 fo = P("f", 0), fr = hasRange(fo) ? P("frange", 5) : 1, fq = hasPred(fo) ? P("fq", 1) : 1;
    Call f(fo, P("fk", 0), P("fl", 2), fr, fq, "f-char", "f-window"), g(fo, P("gk", 0), P("gl", 2), fr, fq, "g-char", "g-window");
    Fresh e(&g); e.run(); Res a, b; f.run(a); f.become(g); f.run(b); finish(b);
    CHECK(e.is(b), "the result depends on what the same buffer held in an earlier call"); sym_reach("repeated");
}
// the same call again, and many times
extern "C" void p26_again() {
    u32 fo = P("f", 0);
    u32 fr = hasRange(fo) ? pick("frange", 0, 6) : 1; u32 fq = hasPred(fo) ? pick("fpred", 1, 8) : 1;
    Call f(fo, P("fk", 0), P("fl", 2), fr, fq, "f-char", "f-window");
    Res a; f.run(a); for (u32 i = 0; i < P("reps", 1); ++i) { Res b; f.run(b); CHECK(equal(a, b), "the same call gives another result later"); }
    finish(a); CHECK(f.intact(), "an argument was modified"); sym_reach("repeated");
}
struct Job { const Call* c; Res r; bool ran, differs; explicit Job(const Call* c_) : c(c_), r(), ran(false), differs(false) {} };
static void work(void* p) { Job& j = *(Job*)p; Res r; j.c->run(r); if (j.ran && !equal(j.r, r)) j.differs = true; j.r.swap(r); j.ran = true; }
extern "C" void p26_threads() {
    u32 fo = P("f", 0), go = P("alone", 0) ? fo : opG();
    u32 fr = hasRange(fo) ? pick("frange", 4, 5) : 1;
    Call f(fo, P("fk", 0), P("fl", 2), fr, hasPred(fo) ? P("fq", 1) : 1, "f-char", "f-window");
    Call g(go, P("gk", 0), P("gl", 1), hasRange(go) ? P("grange", 5) : 1, hasPred(go) ? P("gq", 1) : 1, "g-char", "g-window");
    Job a(&f), b(P("alone", 0) ? &f : &g); sym_concurrently(work, &a, work, &b);
    Res x, y; a.c->run(x); b.c->run(y);
    finish(x); CHECK(!a.differs && !b.differs && equal(a.r, x) && equal(b.r, y), "a call made at the same time as another gives another result");
    CHECK(f.intact() && g.intact(), "an argument was modified"); sym_reach("two threads");
}
