// SMT back end: slices, caches and discharges queries with Z3 (QF_BV).
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <memory>
#include <map>

enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

struct Model { std::vector<u64> v; u64 stamp; };
typedef std::shared_ptr<Model> ModelP;

struct KeyHash { size_t operator()(const std::vector<uint32_t>& k) const { u64 h = 1469598103934665603ull; for (auto x : k) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };

struct Solver {
    Ctx& C;
    Z3_context z; Z3_solver s, both[2];       // both: the SMT core, and the qfbv tactic
    Z3_sort boolSort;
    u64 queries = 0, cacheHits = 0, satN = 0, unsatN = 0, unknownN = 0, trivially = 0;
    double time = 0, maxTime = 0;
    unsigned timeoutMs;
    std::string dumpDir; unsigned dumpEvery = 0, dumped = 0, dumpMax = 40;
    struct Ent { Res r; std::vector<std::pair<uint32_t, u64>> m; };
    std::unordered_map<std::vector<uint32_t>, Ent, KeyHash> cache;

    static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
    Solver(Ctx& c, unsigned tmo) : C(c), timeoutMs(tmo) {
        Z3_config cfg = Z3_mk_config();
        z = Z3_mk_context(cfg);     // non-rc context: asts live until the context dies
        Z3_del_config(cfg);
        Z3_set_error_handler(z, onErr);
        s = Z3_mk_simple_solver(z);
        Z3_solver_inc_ref(z, s);
        Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
        Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), timeoutMs / 2);
        Z3_solver_set_params(z, s, p);
        Z3_tactic t = Z3_mk_tactic(z, "qfbv"); Z3_tactic_inc_ref(z, t);
        both[0] = s; both[1] = Z3_mk_solver_from_tactic(z, t); Z3_solver_inc_ref(z, both[1]); Z3_solver_set_params(z, both[1], p);
        boolSort = Z3_mk_bool_sort(z);
    }
    Z3_ast bv(Node* n) { // as bit-vector
        Z3_ast a = nat(n);
        if (n->w == 1) return Z3_mk_ite(z, a, bvc(1, 1), bvc(1, 0));
        return a;
    }
    Z3_ast bvc(unsigned w, u64 v) { return Z3_mk_unsigned_int64(z, v, Z3_mk_bv_sort(z, w)); }
    Z3_ast b2(Node* n) { return bv(n); }
    // natural sort: Bool for width 1, BV otherwise
    Z3_ast nat(Node* root) {
        if (root->z) return (Z3_ast)root->z;
        std::vector<Node*> st{root};
        while (!st.empty()) {
            Node* n = st.back();
            if (n->z) { st.pop_back(); continue; }
            bool ready = true;
            for (int i = 0; i < n->nk; ++i) if (!n->k[i]->z) { st.push_back(n->k[i]); ready = false; }
            if (!ready) continue;
            st.pop_back();
            n->z = build(n);
        }
        return (Z3_ast)root->z;
    }
    Z3_ast build(Node* n) {
        Node* a = n->k[0]; Node* b = n->k[1];
        switch (n->op) {
        case OConst: return n->w == 1 ? (n->val ? Z3_mk_true(z) : Z3_mk_false(z)) : bvc(n->w, n->val);
        case OVar: {
            Z3_ast v = Z3_mk_const(z, Z3_mk_string_symbol(z, C.vars[n->val].name.c_str()), Z3_mk_bv_sort(z, n->w));
            if (n->w == 1) return Z3_mk_eq(z, v, bvc(1, 1));
            return v;
        }
        case OAdd: return Z3_mk_bvadd(z, bv(a), bv(b));
        case OSub: return Z3_mk_bvsub(z, bv(a), bv(b));
        case OMul: return Z3_mk_bvmul(z, bv(a), bv(b));
        case OUDiv: return Z3_mk_bvudiv(z, bv(a), bv(b));
        case OSDiv: return Z3_mk_bvsdiv(z, bv(a), bv(b));
        case OURem: return Z3_mk_bvurem(z, bv(a), bv(b));
        case OSRem: return Z3_mk_bvsrem(z, bv(a), bv(b));
        case OAnd: if (n->w == 1) { Z3_ast x[2] = {nat(a), nat(b)}; return Z3_mk_and(z, 2, x); } return Z3_mk_bvand(z, bv(a), bv(b));
        case OOr: if (n->w == 1) { Z3_ast x[2] = {nat(a), nat(b)}; return Z3_mk_or(z, 2, x); } return Z3_mk_bvor(z, bv(a), bv(b));
        case OXor:
            if (n->w == 1) { if (Ctx::isC(b, 1)) return Z3_mk_not(z, nat(a)); return Z3_mk_xor(z, nat(a), nat(b)); }
            return Z3_mk_bvxor(z, bv(a), bv(b));
        case OShl: return Z3_mk_bvshl(z, bv(a), bv(b));
        case OLShr: return Z3_mk_bvlshr(z, bv(a), bv(b));
        case OAShr: return Z3_mk_bvashr(z, bv(a), bv(b));
        case OEq: return Z3_mk_eq(z, nat(a), nat(b));
        case OUlt: return Z3_mk_bvult(z, bv(a), bv(b));
        case OSlt: return Z3_mk_bvslt(z, bv(a), bv(b));
        case OIte: return Z3_mk_ite(z, nat(a), nat(b), nat(n->k[2]));
        case OSExt: return Z3_mk_sign_ext(z, n->w - a->w, bv(a));
        case OExtract: {
            Z3_ast e = Z3_mk_extract(z, (unsigned)n->val + n->w - 1, (unsigned)n->val, bv(a));
            if (n->w == 1) return Z3_mk_eq(z, e, bvc(1, 1));
            return e;
        }
        case OConcat: return Z3_mk_concat(z, bv(a), bv(b));
        }
        abort();
    }
    // number of distinct subterms, counted up to a limit
    u64 seenCtr = 0; std::vector<u64> seen; std::vector<Node*> todo;
    size_t sizeOf(const std::vector<Node*>& cs, size_t limit) {
        ++seenCtr; size_t n = 0; todo.assign(cs.begin(), cs.end());
        while (!todo.empty() && n < limit) {
            Node* x = todo.back(); todo.pop_back();
            if (x->id >= seen.size()) seen.resize(x->id * 2 + 64, 0);
            if (seen[x->id] == seenCtr) continue;
            seen[x->id] = seenCtr; ++n;
            for (int i = 0; i < x->nk; ++i) todo.push_back(x->k[i]);
        }
        return n;
    }
    // Larger queries go to whichever of the two solvers has been faster on queries of
    // that size; both give the same answers.
    struct Pace { double t[2] = {0, 0}; u64 n[2] = {0, 0}; u64 c = 0; } pace[20];
    Pace* paceOf(const std::vector<Node*>& cs) { size_t n = sizeOf(cs, 20000); if (n < 400) return nullptr; unsigned b = 0; while (n >>= 1) ++b; return &pace[b]; }
    int choose(Pace& p) {
        ++p.c; if (!p.n[1] && (p.n[0] < 4 || p.t[0] < 1)) return 0; if (p.n[1] < 4) return 1;
        int best = p.t[1] / p.n[1] < p.t[0] / p.n[0];
        return p.c % 64 == 0 ? !best : best;
    }
    void tell(Pace& p, int k, double dt) { p.t[k] += dt; if (++p.n[k] > 64 && p.n[1]) { p.t[k] /= 2; p.n[k] /= 2; } }
    // is the conjunction of cs satisfiable? fills values for the variables that occur
    Res check(std::vector<Node*>& cs, std::vector<std::pair<uint32_t, u64>>& out) {
        std::vector<uint32_t> key; key.reserve(cs.size());
        for (auto n : cs) key.push_back(n->id);
        std::sort(key.begin(), key.end());
        key.erase(std::unique(key.begin(), key.end()), key.end());
        auto it = cache.find(key);
        if (it != cache.end()) { ++cacheHits; out = it->second.m; return it->second.r; }
        ++queries;
        auto t0 = std::chrono::steady_clock::now();
        // every ast is built at scope 0 so that it outlives the pop below
        VSet vs;
        for (auto n : cs) { nat(n); vs |= C.vset(n); }
        std::vector<std::pair<uint32_t, Z3_ast>> vas;
        for (uint32_t i = 0; i < C.vars.size(); ++i)
            if (vs.test(std::min<u64>(i, VSETBITS - 1))) vas.push_back({i, bv(C.varByName[C.vars[i].name])});
        Pace* pc = paceOf(cs); int which = pc ? choose(*pc) : 0;
        auto ask = [&](int k) {
            auto t1 = std::chrono::steady_clock::now();
            s = both[k]; Z3_solver_push(z, s);
            for (auto n : cs) Z3_solver_assert(z, s, nat(n));
            Z3_lbool r = Z3_solver_check(z, s);
            if (pc) tell(*pc, k, std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count());
            return r;
        };
        Z3_lbool r = ask(which);
        if (r == Z3_L_UNDEF) { Z3_solver_pop(z, s, 1); r = ask(1 - which); }
        Ent e;
        if (r == Z3_L_TRUE) {
            e.r = SAT; ++satN;
            Z3_model m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m);
            for (auto& va : vas) {
                Z3_ast r2; u64 val = 0;
                if (Z3_model_eval(z, m, va.second, true, &r2)) Z3_get_numeral_uint64(z, r2, &val);
                e.m.push_back({va.first, val});
            }
            Z3_model_dec_ref(z, m);
        } else if (r == Z3_L_FALSE) { e.r = UNSAT; ++unsatN; }
        else { e.r = UNKNOWN; ++unknownN; }
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (dumpEvery && dumped < dumpMax && e.r != UNKNOWN && (queries % dumpEvery) == 0) {
            char fn[600]; snprintf(fn, sizeof fn, "%s/q%06llu.%s.smt2", dumpDir.c_str(), (unsigned long long)queries, e.r == SAT ? "sat" : "unsat");
            if (FILE* f = fopen(fn, "w")) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(z, s)); fclose(f); ++dumped; }
        }
        Z3_solver_pop(z, s, 1);
        time += dt; if (dt > maxTime) maxTime = dt;
        out = e.m;
        if (e.r != UNKNOWN) cache.emplace(std::move(key), e);
        return e.r;
    }
};
