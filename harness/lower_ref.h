// Simple lower-case mapping of the pinned character database.
#pragma once
#include "known.h"
inline u32 refLower(u32 c) {
    size_t lo = 0, hi = sizeof kLowerRuns / sizeof kLowerRuns[0];
    while (lo < hi) { size_t m = (lo + hi) / 2; if (split(c > kLowerRuns[m].last)) lo = m + 1; else hi = m; }
    if (lo == sizeof kLowerRuns / sizeof kLowerRuns[0]) return c;
    const LowerRun& r = kLowerRuns[lo];
    if (split(c < r.first)) return c;
    bool in = r.stride == 1 || !((c - r.first) & 1);
    return in ? c + (u32)r.delta : c;
}
// the value recorded for a listed finding, or the reference value
inline u32 knownLower(u32 c, u32 dflt) {
    for (size_t i = 0; i < sizeof kKnownLower / sizeof kKnownLower[0]; ++i) {
        const KnownLower& k = kKnownLower[i];
        if (UNICODE_VERSION >= k.v0 && UNICODE_VERSION <= k.v1 && c >= k.first && c <= k.last) return c + k.delta;
    }
    return dflt;
}
