#include "solver.h"
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <chrono>
#include <unordered_set>
SolverStats g_ss;
static Z3_context Z; static Z3_solver S; static unsigned g_timeout; static unsigned g_lits; static u32 g_epoch = 1;
static std::vector<E*> g_withLit;
static std::vector<Z3_ast> g_symAst;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void newSolver() {
    if (S) Z3_solver_dec_ref(Z, S);
    S = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FD")); Z3_solver_inc_ref(Z, S);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), g_timeout);
    Z3_solver_set_params(Z, S, p); Z3_params_dec_ref(Z, p);
    for (E* e : g_withLit) e->lit = nullptr;
    g_withLit.clear(); g_lits = 0;
}
void solverInit(unsigned t) {
    g_timeout = t;
    Z3_config c = Z3_mk_config(); Z3_set_param_value(c, "model", "true");
    Z = Z3_mk_context(c); Z3_del_config(c); Z3_set_error_handler(Z, errh); newSolver();
}
static Z3_sort bvs(unsigned w) { static Z3_sort s[129]; if (!s[w]) { s[w] = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s[w])); } return s[w]; }
static Z3_ast tr(E* e);
static Z3_ast bvnum(u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(Z, (u64)v, bvs(w));
    Z3_ast h = Z3_mk_unsigned_int64(Z, (u64)(v >> 64), bvs(w - 64)); Z3_ast l = Z3_mk_unsigned_int64(Z, (u64)v, bvs(64));
    return Z3_mk_concat(Z, h, l);
}
static Z3_ast asBv(E* e) { // width-1 nodes are Bool in Z3
    Z3_ast a = tr(e); if (e->w != 1) return a;
    return Z3_mk_ite(Z, a, Z3_mk_unsigned_int64(Z, 1, bvs(1)), Z3_mk_unsigned_int64(Z, 0, bvs(1)));
}
static Z3_ast toBool(Z3_ast bv1) { return Z3_mk_eq(Z, bv1, Z3_mk_unsigned_int64(Z, 1, bvs(1))); }
static Z3_ast tableTree(Z3_ast idx, unsigned iw, const std::vector<u64>& v, size_t lo, unsigned bit, unsigned w) {
    // values for indexes [lo, lo + 2^bit)
    auto val = [&](size_t i) { return i < v.size() ? v[i] : v.back(); };
    size_t n = (size_t)1 << bit; bool same = true; u64 f = val(lo);
    for (size_t i = 1; i < n && same; i++) same = val(lo + i) == f;
    if (same) return w == 1 ? (f ? Z3_mk_true(Z) : Z3_mk_false(Z)) : bvnum(f, w);
    Z3_ast b = toBool(Z3_mk_extract(Z, bit - 1, bit - 1, idx));
    return Z3_mk_ite(Z, b, tableTree(idx, iw, v, lo + n / 2, bit - 1, w), tableTree(idx, iw, v, lo, bit - 1, w));
}
static Z3_ast tr0(E* e) {
    auto K = [&](int i) { return tr(e->k[i]); };
    bool b1 = e->k[0] && e->k[0]->w == 1;
    switch (e->op) {
    case X_CONST: return e->w == 1 ? (e->c ? Z3_mk_true(Z) : Z3_mk_false(Z)) : bvnum(e->c, e->w);
    case X_SYM: { char n[32]; snprintf(n, 32, "s%u_%u", (u32)e->c, e->w); return Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), e->w == 1 ? Z3_mk_bool_sort(Z) : bvs(e->w)); }
    case X_ADD: if (b1) { Z3_ast x = K(0), y = K(1); return Z3_mk_xor(Z, x, y); } return Z3_mk_bvadd(Z, K(0), K(1));
    case X_SUB: if (b1) { Z3_ast x = K(0), y = K(1); return Z3_mk_xor(Z, x, y); } return Z3_mk_bvsub(Z, K(0), K(1));
    case X_MUL: if (b1) { Z3_ast x[2] = {K(0), K(1)}; return Z3_mk_and(Z, 2, x); } return Z3_mk_bvmul(Z, K(0), K(1));
    case X_UDIV: return Z3_mk_bvudiv(Z, K(0), K(1)); case X_SDIV: return Z3_mk_bvsdiv(Z, K(0), K(1));
    case X_UREM: return Z3_mk_bvurem(Z, K(0), K(1)); case X_SREM: return Z3_mk_bvsrem(Z, K(0), K(1));
    case X_AND: if (b1) { Z3_ast x[2] = {K(0), K(1)}; return Z3_mk_and(Z, 2, x); } return Z3_mk_bvand(Z, K(0), K(1));
    case X_OR: if (b1) { Z3_ast x[2] = {K(0), K(1)}; return Z3_mk_or(Z, 2, x); } return Z3_mk_bvor(Z, K(0), K(1));
    case X_XOR: if (b1) { if (isC(e->k[1])) return Z3_mk_not(Z, K(0)); return Z3_mk_xor(Z, K(0), K(1)); } return Z3_mk_bvxor(Z, K(0), K(1));
    case X_SHL: return Z3_mk_bvshl(Z, K(0), K(1)); case X_LSHR: return Z3_mk_bvlshr(Z, K(0), K(1)); case X_ASHR: return Z3_mk_bvashr(Z, K(0), K(1));
    case X_EQ: return Z3_mk_eq(Z, K(0), K(1));
    case X_ULT: return Z3_mk_bvult(Z, asBv(e->k[0]), asBv(e->k[1])); case X_ULE: return Z3_mk_bvule(Z, asBv(e->k[0]), asBv(e->k[1]));
    case X_SLT: return Z3_mk_bvslt(Z, asBv(e->k[0]), asBv(e->k[1])); case X_SLE: return Z3_mk_bvsle(Z, asBv(e->k[0]), asBv(e->k[1]));
    case X_ZEXT: return Z3_mk_zero_ext(Z, e->w - e->k[0]->w, asBv(e->k[0]));
    case X_SEXT: return Z3_mk_sign_ext(Z, e->w - e->k[0]->w, asBv(e->k[0]));
    case X_EXTRACT: { Z3_ast x = Z3_mk_extract(Z, (unsigned)e->c + e->w - 1, (unsigned)e->c, K(0)); return e->w == 1 ? toBool(x) : x; }
    case X_CONCAT: { Z3_ast h = asBv(e->k[0]), l = asBv(e->k[1]); return Z3_mk_concat(Z, h, l); }
    case X_ITE: { Z3_ast c = K(0), x = K(1), y = K(2); return Z3_mk_ite(Z, c, x, y); }
    case X_TABLE: { Table* t = (Table*)(uintptr_t)(u64)e->c; unsigned bits = 0; while (((size_t)1 << bits) < t->v.size()) bits++;
        unsigned iw = e->k[0]->w; Z3_ast idx = asBv(e->k[0]); if (bits > iw) bits = iw;
        Z3_ast r = tableTree(idx, iw, t->v, 0, bits, e->w);
        if (iw > bits && e->k[0]->hi >> bits) { Z3_ast inr = Z3_mk_bvult(Z, idx, bvnum((u128)1 << bits, iw)); Z3_ast d = e->w == 1 ? (t->v.back() ? Z3_mk_true(Z) : Z3_mk_false(Z)) : bvnum(t->v.back(), e->w); r = Z3_mk_ite(Z, inr, r, d); }
        return r; }
    }
    abort();
}
static Z3_ast tr(E* e) {
    if (e->z) return (Z3_ast)e->z;
    Z3_ast a = tr0(e); Z3_inc_ref(Z, a); e->z = a; return a;
}
static Z3_ast lit(E* e) {
    if (e->lit) return (Z3_ast)e->lit;
    Z3_ast p = Z3_mk_fresh_const(Z, "p", Z3_mk_bool_sort(Z)); Z3_inc_ref(Z, p);
    Z3_solver_assert(Z, S, Z3_mk_implies(Z, p, tr(e)));
    e->lit = p; g_withLit.push_back(e); g_lits++; return p;
}
struct CacheEnt { SatRes r; std::vector<std::pair<u32, u64>> model; };
struct VH { size_t operator()(const std::vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<u32>, CacheEnt, VH> g_cache;

static void collectSyms(E* e, std::unordered_set<E*>& seen, std::vector<E*>& out) {
    if (!(e->sup[0] | e->sup[1])) return;
    if (!seen.insert(e).second) return;
    if (e->op == X_SYM) { out.push_back(e); return; }
    for (E* k : e->k) if (k) collectSyms(k, seen, out);
}
SatRes solveConj(std::vector<E*> cs, std::vector<u64>* wit, bool isAssert) {
    std::vector<E*> c2;
    for (E* e : cs) { if (isC(e)) { if (!e->c) { if (isAssert) g_ss.assertQueries++; return SR_UNSAT; } continue; } c2.push_back(e); }
    std::sort(c2.begin(), c2.end(), [](E* a, E* b) { return a->id < b->id; });
    c2.erase(std::unique(c2.begin(), c2.end()), c2.end());
    if (isAssert) g_ss.assertQueries++;
    if (c2.empty()) return SR_SAT;
    std::vector<u32> key; key.reserve(c2.size()); for (E* e : c2) key.push_back(e->id);
    auto it = g_cache.find(key);
    if (it != g_cache.end()) { g_ss.cacheHits++; if (it->second.r == SR_SAT && wit) for (auto& m : it->second.model) { if (wit->size() <= m.first) wit->resize(m.first + 1); (*wit)[m.first] = m.second; } return it->second.r; }
    auto t0 = std::chrono::steady_clock::now();
    if (g_lits > 6000) newSolver();
    std::vector<Z3_ast> as; for (E* e : c2) as.push_back(lit(e));
    g_ss.queries++;
    Z3_lbool r = Z3_solver_check_assumptions(Z, S, as.size(), as.data());
    CacheEnt ce; ce.r = r == Z3_L_TRUE ? SR_SAT : r == Z3_L_FALSE ? SR_UNSAT : SR_UNKNOWN;
    if (r == Z3_L_TRUE) {
        g_ss.sat++;
        Z3_model m = Z3_solver_get_model(Z, S); Z3_model_inc_ref(Z, m);
        std::unordered_set<E*> seen; std::vector<E*> syms; for (E* e : c2) collectSyms(e, seen, syms);
        for (E* s : syms) {
            Z3_ast v = nullptr; Z3_model_eval(Z, m, tr(s), true, &v); u64 x = 0;
            if (s->w == 1) x = Z3_get_bool_value(Z, v) == Z3_L_TRUE; else { uint64_t y = 0; Z3_get_numeral_uint64(Z, v, &y); x = y; }
            ce.model.push_back({(u32)s->c, x});
        }
        Z3_model_dec_ref(Z, m);
        if (wit) for (auto& p : ce.model) { if (wit->size() <= p.first) wit->resize(p.first + 1); (*wit)[p.first] = p.second; }
    } else if (r == Z3_L_FALSE) g_ss.unsat++; else { g_ss.unknown++; newSolver(); }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
    if (g_cache.size() > 400000) g_cache.clear();
    g_cache[key] = ce;
    return ce.r;
}
std::string toSmt2(const std::vector<E*>& cs) {
    std::vector<Z3_ast> a; for (E* e : cs) if (!isC(e)) a.push_back(tr(e));
    if (a.empty()) return "";
    Z3_ast last = a.back(); a.pop_back();
    return Z3_benchmark_to_smtlib_string(Z, "q", "QF_BV", "unknown", "", a.size(), a.data(), last);
}
