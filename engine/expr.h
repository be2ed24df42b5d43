// Hash-consed bit-vector expressions (widths 1..64) with a bit-slicing simplifier.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <bitset>
#include <cassert>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

typedef uint64_t u64;
typedef int64_t i64;

static const unsigned VSETBITS = 256;
typedef std::bitset<VSETBITS> VSet;

enum Op : uint8_t {
    OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem,
    OAnd, OOr, OXor, OShl, OLShr, OAShr,
    OEq, OUlt, OSlt, OIte, OSExt, OExtract, OConcat
};

struct Node {
    Op op;
    uint8_t nk;
    uint16_t w;
    uint32_t id;
    Node* k[3];
    u64 val;            // const value / var index / extract low bit
    u64 ones;           // bits that may be one
    uint32_t vs;        // index into the var-set table
    u64 evStamp; u64 evVal;
    void* z;            // Z3 ast of natural sort
};

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); return (i64)(((v & maskw(w)) ^ m) - m); }

struct VarInfo { std::string name; unsigned w; bool undef; };

struct Ctx {
    std::vector<Node*> pool;
    std::unordered_multimap<u64, Node*> table;
    std::vector<VarInfo> vars;
    std::unordered_map<std::string, Node*> varByName;
    std::vector<VSet> vsets;
    std::unordered_map<VSet, uint32_t> vsetIdx;
    u64 stampCtr = 1;

    Ctx() { vsetOf(VSet()); table.reserve(1 << 16); }
    uint32_t vsetOf(const VSet& s) {
        auto it = vsetIdx.find(s);
        if (it != vsetIdx.end()) return it->second;
        vsets.push_back(s);
        vsetIdx.emplace(s, (uint32_t)vsets.size() - 1);
        return (uint32_t)vsets.size() - 1;
    }
    const VSet& vset(Node* n) { return vsets[n->vs]; }

    static u64 hashOf(Op op, unsigned w, Node* a, Node* b, Node* c, u64 val) {
        u64 h = op * 0x9E3779B97F4A7C15ull ^ (u64)w * 0xC2B2AE3D27D4EB4Full;
        auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
        mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0); mix(val);
        return h;
    }
    Node* raw(Op op, unsigned w, Node* a, Node* b, Node* c, u64 val) {
        assert(w >= 1 && w <= 64);
        u64 h = hashOf(op, w, a, b, c, val);
        auto r = table.equal_range(h);
        for (auto it = r.first; it != r.second; ++it) {
            Node* n = it->second;
            if (n->op == op && n->w == w && n->k[0] == a && n->k[1] == b && n->k[2] == c && n->val == val) return n;
        }
        Node* n = new Node();
        n->op = op; n->w = w; n->k[0] = a; n->k[1] = b; n->k[2] = c; n->val = val;
        n->nk = c ? 3 : b ? 2 : a ? 1 : 0;
        n->id = (uint32_t)pool.size();
        n->evStamp = 0; n->z = nullptr;
        if (op == OVar) { VSet s; s.set(std::min<u64>(val, VSETBITS - 1)); n->vs = vsetOf(s); }
        else if (!a) n->vs = 0;
        else if (!b) n->vs = a->vs;
        else {
            if (!c && a->vs == b->vs) n->vs = a->vs;
            else { VSet s = vsets[a->vs] | vsets[b->vs]; if (c) s |= vsets[c->vs]; n->vs = vsetOf(s); }
        }
        n->ones = onesOf(n);
        pool.push_back(n);
        table.emplace(h, n);
        return n;
    }
    static u64 upto(u64 m) { // smear: all bits up to the highest possible one
        m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; return m;
    }
    u64 onesOf(Node* n) {
        u64 M = maskw(n->w);
        switch (n->op) {
        case OConst: return n->val;
        case OAnd: return n->k[0]->ones & n->k[1]->ones;
        case OOr: case OXor: return n->k[0]->ones | n->k[1]->ones;
        case OIte: return n->k[1]->ones | n->k[2]->ones;
        case OConcat: { unsigned lw = n->k[1]->w; return ((n->k[0]->ones << lw) | n->k[1]->ones) & M; }
        case OExtract: return (n->k[0]->ones >> n->val) & M;
        case OAdd: { u64 a = upto(n->k[0]->ones), b = upto(n->k[1]->ones); if (a > ~b) return M; return upto(a + b) & M; }
        case OLShr: return upto(n->k[0]->ones);
        case OURem: return upto(n->k[0]->ones);
        case OUDiv: return (isC(n->k[1]) && n->k[1]->val) ? upto(n->k[0]->ones) : M;
        case OEq: case OUlt: case OSlt: return 1;
        default: return M;
        }
    }

    // ---------------------------------------------------------------- builders
    Node* cst(unsigned w, u64 v) { return raw(OConst, w, 0, 0, 0, v & maskw(w)); }
    Node* T() { return cst(1, 1); }
    Node* F() { return cst(1, 0); }
    Node* var(const std::string& name, unsigned w, bool undef = false) {
        auto it = varByName.find(name);
        if (it != varByName.end()) { assert(it->second->w == w); return it->second; }
        vars.push_back({name, w, undef});
        Node* n = raw(OVar, w, 0, 0, 0, vars.size() - 1);
        varByName[name] = n;
        return n;
    }
    static bool isC(Node* n) { return n->op == OConst; }
    static bool isC(Node* n, u64 v) { return n->op == OConst && n->val == v; }

    Node* mkExtract(Node* n, unsigned lo, unsigned w) {
        assert(lo + w <= n->w);
        if (lo == 0 && w == n->w) return n;
        if (isC(n)) return cst(w, n->val >> lo);
        if (((n->ones >> lo) & maskw(w)) == 0) return cst(w, 0);
        switch (n->op) {
        case OExtract: return mkExtract(n->k[0], lo + (unsigned)n->val, w);
        case OConcat: {
            unsigned lw = n->k[1]->w;
            if (lo >= lw) return mkExtract(n->k[0], lo - lw, w);
            if (lo + w <= lw) return mkExtract(n->k[1], lo, w);
            return mkConcat(mkExtract(n->k[0], 0, lo + w - lw), mkExtract(n->k[1], lo, lw - lo));
        }
        case OSExt: {
            unsigned iw = n->k[0]->w;
            if (lo + w <= iw) return mkExtract(n->k[0], lo, w);
            if (lo == 0) return mkSExt(n->k[0], w);
            if (lo >= iw - 1) return mkSExt(mkExtract(n->k[0], iw - 1, 1), w);
            break;
        }
        case OIte:
            if (isC(n->k[1]) || isC(n->k[2]) || w == 1) return mkIte(n->k[0], mkExtract(n->k[1], lo, w), mkExtract(n->k[2], lo, w));
            break;
        case OAnd: case OOr: case OXor:
            return mkBin(n->op, mkExtract(n->k[0], lo, w), mkExtract(n->k[1], lo, w));
        case OAdd: case OSub: case OMul:
            if (lo == 0) return mkBin(n->op, mkExtract(n->k[0], 0, w), mkExtract(n->k[1], 0, w));
            break;
        default: break;
        }
        return raw(OExtract, w, n, 0, 0, lo);
    }
    Node* mkConcat(Node* hi, Node* lo) {
        assert(hi->w + lo->w <= 64);
        unsigned w = hi->w + lo->w;
        if (isC(hi) && isC(lo)) return cst(w, (hi->val << lo->w) | lo->val);
        // right-associated: concat(a, concat(b, c))
        if (hi->op == OConcat) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
        Node* head = lo->op == OConcat ? lo->k[0] : lo;
        Node* tail = lo->op == OConcat ? lo->k[1] : nullptr;
        Node* m = nullptr;
        if (isC(hi) && isC(head)) m = cst(hi->w + head->w, (hi->val << head->w) | head->val);
        else {
            Node* hb = hi->op == OExtract ? hi->k[0] : hi;
            Node* lb = head->op == OExtract ? head->k[0] : head;
            unsigned hlo = hi->op == OExtract ? (unsigned)hi->val : 0;
            unsigned llo = head->op == OExtract ? (unsigned)head->val : 0;
            if (hb == lb && hlo == llo + head->w && (hi->op == OExtract)) m = mkExtract(hb, llo, hi->w + head->w);
        }
        if (m) return tail ? mkConcat(m, tail) : m;
        return raw(OConcat, w, hi, lo, 0, 0);
    }
    Node* mkZExt(Node* n, unsigned w) { if (w == n->w) return n; return mkConcat(cst(w - n->w, 0), n); }
    Node* mkSExt(Node* n, unsigned w) {
        if (w == n->w) return n;
        if (isC(n)) return cst(w, (u64)sx(n->val, n->w));
        if (((n->ones >> (n->w - 1)) & 1) == 0) return mkZExt(n, w);
        if (n->op == OSExt) return mkSExt(n->k[0], w);
        if (n->op == OIte && isC(n->k[1]) && isC(n->k[2])) return mkIte(n->k[0], mkSExt(n->k[1], w), mkSExt(n->k[2], w));
        return raw(OSExt, w, n, 0, 0, 0);
    }
    Node* mkTrunc(Node* n, unsigned w) { return mkExtract(n, 0, w); }
    Node* mkNot(Node* n) { // bitwise not / logical not for width 1
        return mkBin(OXor, n, cst(n->w, maskw(n->w)));
    }
    bool isNot(Node* n, Node*& inner) {
        if (n->op == OXor && isC(n->k[1]) && n->k[1]->val == maskw(n->w)) { inner = n->k[0]; return true; }
        return false;
    }

    struct Seg { Node* n; unsigned w; }; // low to high
    void segs(Node* n, std::vector<Seg>& out) {
        while (n->op == OConcat) { // hi, lo ; collect low first
            std::vector<Seg> lo; segs(n->k[1], lo);
            out.insert(out.end(), lo.begin(), lo.end());
            n = n->k[0];
        }
        out.push_back({n, n->w});
    }
    Node* fromSegs(const std::vector<Seg>& s) {
        Node* r = nullptr;
        for (auto& x : s) r = r ? mkConcat(x.n, r) : x.n;
        return r;
    }
    // try to do a bitwise op piecewise; null when nothing gained
    Node* bitwise(Op op, Node* a, Node* b) {
        unsigned w = a->w;
        bool dec = a->op == OConcat || b->op == OConcat;
        if (!dec && !(isC(b) && (op == OAnd || op == OOr))) return nullptr;
        if (isC(b) && !dec) {
            // split by the runs of the constant
            unsigned runs = 1;
            for (unsigned i = 1; i < w; ++i) if (((b->val >> i) & 1) != ((b->val >> (i - 1)) & 1)) ++runs;
            if (runs > 4 || runs == 1) return nullptr;
        }
        std::vector<Seg> sa, sb, out;
        segs(a, sa); segs(b, sb);
        size_t ia = 0, ib = 0; unsigned oa = 0, ob = 0, pos = 0;
        while (pos < w) {
            unsigned take = std::min(sa[ia].w - oa, sb[ib].w - ob);
            Node* pa = sa[ia].n; Node* pb = sb[ib].n;
            // const pieces: cut into uniform runs
            auto runLen = [&](Node* c, unsigned off, unsigned max) { unsigned r = 1; while (r < max && ((c->val >> (off + r)) & 1) == ((c->val >> off) & 1)) ++r; return r; };
            if (isC(pa) && !isC(pb)) take = runLen(pa, oa, take);
            else if (isC(pb) && !isC(pa)) take = runLen(pb, ob, take);
            Node* xa = mkExtract(pa, oa, take); Node* xb = mkExtract(pb, ob, take);
            Node* r = nullptr;
            if (isC(xa) && isC(xb)) r = cst(take, op == OAnd ? xa->val & xb->val : op == OOr ? xa->val | xb->val : xa->val ^ xb->val);
            else if (isC(xa) || isC(xb)) {
                Node* c = isC(xa) ? xa : xb; Node* x = isC(xa) ? xb : xa;
                bool one = c->val != 0;
                if (op == OAnd) r = one ? x : c;
                else if (op == OOr) r = one ? c : x;
                else r = one ? raw(OXor, take, x, c, 0, 0) : x;
                if (op == OXor && one) { // simplify nested not
                    Node* in; if (isNot(x, in)) r = in; else r = raw(OXor, take, x, c, 0, 0);
                }
            } else if (xa == xb) r = op == OXor ? cst(take, 0) : xa;
            else {
                if (take == w) return nullptr;
                r = mkBin(op, xa, xb);
            }
            out.push_back({r, take});
            oa += take; ob += take; pos += take;
            if (oa == sa[ia].w) { ++ia; oa = 0; }
            if (ob == sb[ib].w) { ++ib; ob = 0; }
        }
        return fromSegs(out);
    }

    static u64 foldBin(Op op, unsigned w, u64 a, u64 b) {
        u64 M = maskw(w);
        switch (op) {
        case OAdd: return (a + b) & M;
        case OSub: return (a - b) & M;
        case OMul: return (a * b) & M;
        case OUDiv: return b ? a / b : M;
        case OURem: return b ? a % b : a;
        case OSDiv: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (0 - a) & M; return (u64)(x / y) & M; }
        case OSRem: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & M; }
        case OAnd: return a & b;
        case OOr: return a | b;
        case OXor: return a ^ b;
        case OShl: return b >= w ? 0 : (a << b) & M;
        case OLShr: return b >= w ? 0 : a >> b;
        case OAShr: return (u64)(b >= w ? (sx(a, w) < 0 ? -1 : 0) : (sx(a, w) >> b)) & M;
        case OEq: return a == b;
        case OUlt: return a < b;
        case OSlt: return sx(a, w) < sx(b, w);
        default: abort();
        }
    }

    Node* mkBin(Op op, Node* a, Node* b) {
        if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
        unsigned w = a->w; u64 M = maskw(w);
        if (isC(a) && isC(b)) {
            u64 r = foldBin(op, w, a->val, b->val);
            return cst((op == OEq || op == OUlt || op == OSlt) ? 1 : w, r);
        }
        switch (op) {
        case OAdd: case OMul: case OAnd: case OOr: case OXor: case OEq:
            if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
            break;
        default: break;
        }
        if (w == 1) {
            if (op == OAdd || op == OSub) return mkBin(OXor, a, b);
            if (op == OMul) return mkBin(OAnd, a, b);
            if (op == OEq) return mkNot(mkBin(OXor, a, b));
            if (op == OUlt) return mkBin(OAnd, mkNot(a), b);
            if (op == OSlt) return mkBin(OAnd, a, mkNot(b));
        }
        // push through ite with constant leaves
        if (isC(b) && a->op == OIte && isC(a->k[1]) && isC(a->k[2]) && w > 1)
            return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        switch (op) {
        case OAdd:
            if (isC(b, 0)) return a;
            if (isC(b) && a->op == OAdd && isC(a->k[1])) return mkBin(OAdd, a->k[0], cst(w, a->k[1]->val + b->val));
            if ((a->ones & b->ones) == 0) return mkBin(OOr, a, b);
            break;
        case OSub:
            if (a == b) return cst(w, 0);
            if (isC(b)) return mkBin(OAdd, a, cst(w, 0 - b->val));
            break;
        case OMul:
            if (isC(b)) {
                if (b->val == 0) return b;
                if (b->val == 1) return a;
                if ((b->val & (b->val - 1)) == 0) return mkBin(OShl, a, cst(w, __builtin_ctzll(b->val)));
            }
            break;
        case OUDiv:
            if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(OLShr, a, cst(w, __builtin_ctzll(b->val)));
            break;
        case OURem:
            if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(OAnd, a, cst(w, b->val - 1));
            break;
        case OShl:
            if (isC(b)) {
                if (b->val == 0) return a;
                if (b->val >= w) return cst(w, 0);
                return mkConcat(mkExtract(a, 0, w - (unsigned)b->val), cst((unsigned)b->val, 0));
            }
            break;
        case OLShr:
            if (isC(b)) {
                if (b->val == 0) return a;
                if (b->val >= w) return cst(w, 0);
                return mkZExt(mkExtract(a, (unsigned)b->val, w - (unsigned)b->val), w);
            }
            break;
        case OAShr:
            if (((a->ones >> (w - 1)) & 1) == 0) return mkBin(OLShr, a, b);
            if (isC(b)) {
                if (b->val == 0) return a;
                u64 s = std::min<u64>(b->val, w - 1);
                return mkSExt(mkExtract(a, (unsigned)s, w - (unsigned)s), w);
            }
            break;
        case OAnd:
            if (a == b) return a;
            if (isC(b)) {
                if (b->val == 0) return b;
                if ((a->ones & ~b->val) == 0) return a;
            }
            if (w == 1) {
                Node* in;
                if (isNot(a, in) && in == b) return F();
                if (isNot(b, in) && in == a) return F();
                // absorb: a & (a & x)
                if (b->op == OAnd && (b->k[0] == a || b->k[1] == a)) return b;
                if (a->op == OAnd && (a->k[0] == b || a->k[1] == b)) return a;
                break;
            }
            if (Node* r = bitwise(op, a, b)) return r;
            if (isC(b) && a->op == OAnd && isC(a->k[1])) return mkBin(OAnd, a->k[0], cst(w, a->k[1]->val & b->val));
            break;
        case OOr:
            if (a == b) return a;
            if (isC(b)) {
                if (b->val == 0) return a;
                if (b->val == M) return b;
            }
            if (w == 1) {
                Node* in;
                if (isNot(a, in) && in == b) return T();
                if (isNot(b, in) && in == a) return T();
                if (b->op == OOr && (b->k[0] == a || b->k[1] == a)) return b;
                if (a->op == OOr && (a->k[0] == b || a->k[1] == b)) return a;
                break;
            }
            if (Node* r = bitwise(op, a, b)) return r;
            break;
        case OXor:
            if (a == b) return cst(w, 0);
            if (isC(b, 0)) return a;
            if (isC(b) && a->op == OXor && isC(a->k[1])) return mkBin(OXor, a->k[0], cst(w, a->k[1]->val ^ b->val));
            if (w == 1) break;
            if (Node* r = bitwise(op, a, b)) return r;
            break;
        case OEq: {
            if (a == b) return T();
            if (isC(b)) {
                u64 c = b->val;
                if (c & ~a->ones) return F();
                if (a->op == OConcat) {
                    std::vector<Seg> s; segs(a, s);
                    Node* r = T(); unsigned pos = 0;
                    for (auto& x : s) { // constants first would be cheaper; order is irrelevant
                        Node* e = mkBin(OEq, x.n, cst(x.w, c >> pos));
                        pos += x.w;
                        if (isC(e, 0)) return e;
                        r = mkBin(OAnd, r, e);
                    }
                    return r;
                }
                if (a->op == OAdd && isC(a->k[1])) return mkBin(OEq, a->k[0], cst(w, c - a->k[1]->val));
                if (a->op == OXor && isC(a->k[1])) return mkBin(OEq, a->k[0], cst(w, c ^ a->k[1]->val));
                if (a->op == OSub && c == 0) return mkBin(OEq, a->k[0], a->k[1]);
                if (a->op == OSExt) {
                    u64 t = c & maskw(a->k[0]->w);
                    if (((u64)sx(t, a->k[0]->w) & M) != c) return F();
                    return mkBin(OEq, a->k[0], cst(a->k[0]->w, t));
                }
                if (a->op == OIte) {
                    Node* x = a->k[1]; Node* y = a->k[2];
                    if (isC(x) || isC(y)) return mkIte(a->k[0], mkBin(OEq, x, b), mkBin(OEq, y, b));
                }
            } else if (a->op == OConcat && b->op == OConcat) {
                std::vector<Seg> sa, sb; segs(a, sa); segs(b, sb);
                bool same = sa.size() == sb.size();
                for (size_t i = 0; same && i < sa.size(); ++i) same = sa[i].w == sb[i].w;
                if (same) {
                    Node* r = T();
                    for (size_t i = 0; i < sa.size(); ++i) { r = mkBin(OAnd, r, mkBin(OEq, sa[i].n, sb[i].n)); if (isC(r, 0)) return r; }
                    return r;
                }
                // common zero-extension
                if (isC(sa.back().n, 0) && isC(sb.back().n, 0)) {
                    unsigned z = std::min(sa.back().w, sb.back().w);
                    return mkBin(OEq, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z));
                }
            }
            break;
        }
        case OUlt: {
            if (a == b) return F();
            if (isC(b)) {
                if (b->val == 0) return F();
                if (a->ones < b->val) return T();
                if (b->val == 1) return mkBin(OEq, a, cst(w, 0));
                if (b->val == M) return mkNot(mkBin(OEq, a, b));
                u64 hi = upto(a->ones);
                if (hi != M) { // narrow
                    unsigned nw = 64 - __builtin_clzll(hi | 1);
                    if (nw < w) {
                        if (b->val > maskw(nw)) return T();
                        return mkBin(OUlt, mkExtract(a, 0, nw), cst(nw, b->val));
                    }
                }
                if (a->op == OConcat && isC(a->k[1], 0)) { // low zero bits
                    unsigned z = a->k[1]->w; u64 c = (b->val + maskw(z)) >> z;
                    if (b->val + maskw(z) < b->val || c > maskw(w - z)) return T();
                    return mkBin(OUlt, a->k[0], cst(w - z, c));
                }
                if (a->op == OIte && (isC(a->k[1]) || isC(a->k[2])))
                    return mkIte(a->k[0], mkBin(OUlt, a->k[1], b), mkBin(OUlt, a->k[2], b));
            }
            if (isC(a)) {
                if (a->val == M) return F();
                if (a->val >= b->ones && (b->ones == upto(b->ones))) return F();
                if (a->val == 0) return mkNot(mkBin(OEq, b, a));
                // c < x  <=>  not (x < c+1)
                return mkNot(mkBin(OUlt, b, cst(w, a->val + 1)));
            }
            u64 hi = upto(a->ones | b->ones);
            if (hi != M) {
                unsigned nw = 64 - __builtin_clzll(hi | 1);
                if (nw < w) return mkBin(OUlt, mkExtract(a, 0, nw), mkExtract(b, 0, nw));
            }
            break;
        }
        case OSlt: {
            if (a == b) return F();
            bool pa = !((a->ones >> (w - 1)) & 1), pb = !((b->ones >> (w - 1)) & 1);
            if (pa && pb) return mkBin(OUlt, a, b);
            if (pa && isC(b) && !pb) return F();
            if (pb && isC(a) && !pa) return T();
            if (isC(b, 0)) return mkExtract(a, w - 1, 1);
            if (isC(a) && a->val == M) return mkNot(mkExtract(b, w - 1, 1));
            if (a->op == OSExt && isC(b)) {
                unsigned iw = a->k[0]->w;
                i64 c = sx(b->val, w), lo = -(1ll << (iw - 1)), hi = (1ll << (iw - 1)) - 1;
                if (c > hi) return T();
                if (c <= lo) return F();
                return mkBin(OSlt, a->k[0], cst(iw, (u64)c));
            }
            if (b->op == OSExt && isC(a)) {
                unsigned iw = b->k[0]->w;
                i64 c = sx(a->val, w), lo = -(1ll << (iw - 1)), hi = (1ll << (iw - 1)) - 1;
                if (c >= hi) return F();
                if (c < lo) return T();
                return mkBin(OSlt, cst(iw, (u64)c), b->k[0]);
            }
            break;
        }
        default: break;
        }
        return raw(op, (op == OEq || op == OUlt || op == OSlt) ? 1 : w, a, b, 0, 0);
    }
    Node* mkIte(Node* c, Node* x, Node* y) {
        if (isC(c)) return c->val ? x : y;
        if (x == y) return x;
        Node* in;
        if (isNot(c, in)) return mkIte(in, y, x);
        if (x->w == 1) {
            if (isC(x, 1)) return mkBin(OOr, c, y);
            if (isC(x, 0)) return mkBin(OAnd, mkNot(c), y);
            if (isC(y, 0)) return mkBin(OAnd, c, x);
            if (isC(y, 1)) return mkBin(OOr, mkNot(c), x);
            if (x == c) return mkBin(OOr, c, y);
            if (y == c) return mkBin(OAnd, c, x);
        }
        if (x->op == OIte && x->k[0] == c) x = x->k[1];
        if (y->op == OIte && y->k[0] == c) y = y->k[2];
        if (x == y) return x;
        if (x->op == OConcat && y->op == OConcat && isC(x->k[0]) && x->k[0] == y->k[0])
            return mkConcat(x->k[0], mkIte(c, x->k[1], y->k[1]));
        return raw(OIte, x->w, c, x, y, 0);
    }

    // ---------------------------------------------------------------- evaluation under a model
    u64 eval(Node* n, const std::vector<u64>& model, u64 stamp) {
        if (n->op == OConst) return n->val;
        if (n->evStamp == stamp) return n->evVal;
        // explicit stack: expressions can be deep
        std::vector<Node*> st; st.push_back(n);
        while (!st.empty()) {
            Node* x = st.back();
            if (x->op == OConst || x->evStamp == stamp) { st.pop_back(); continue; }
            bool ready = true;
            if (x->op == OIte) {
                Node* c = x->k[0];
                if (c->op != OConst && c->evStamp != stamp) { st.push_back(c); continue; }
                Node* pick = (c->op == OConst ? c->val : c->evVal) ? x->k[1] : x->k[2];
                if (pick->op != OConst && pick->evStamp != stamp) { st.push_back(pick); continue; }
                x->evVal = pick->op == OConst ? pick->val : pick->evVal; x->evStamp = stamp; st.pop_back(); continue;
            }
            for (int i = 0; i < x->nk; ++i) if (x->k[i]->op != OConst && x->k[i]->evStamp != stamp) { st.push_back(x->k[i]); ready = false; }
            if (!ready) continue;
            auto v = [&](int i) { return x->k[i]->op == OConst ? x->k[i]->val : x->k[i]->evVal; };
            u64 r;
            switch (x->op) {
            case OVar: r = x->val < model.size() ? model[x->val] & maskw(x->w) : 0; break;
            case OSExt: r = (u64)sx(v(0), x->k[0]->w) & maskw(x->w); break;
            case OExtract: r = (v(0) >> x->val) & maskw(x->w); break;
            case OConcat: r = (v(0) << x->k[1]->w) | v(1); break;
            default: r = foldBin(x->op, x->k[0]->w, v(0), v(1)); break;
            }
            x->evVal = r; x->evStamp = stamp; st.pop_back();
        }
        return n->evVal;
    }
};
