#include "expr.h"
#include <cstdio>
#include <cstdlib>
std::vector<Sym> g_syms;
u64 g_evStamp = 1;
std::vector<u64> g_wit;

static std::vector<E*> g_tab(1 << 16, nullptr);
static u64 g_count = 0; static u32 g_id = 0;
static char* g_arena = nullptr; static size_t g_arenaLeft = 0;
u64 exprCount() { return g_count; }

static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
static u64 hashNode(u8 op, u8 w, E* a, E* b, E* d, u128 c) {
    u64 h = op * 131 + w; h = mix(h, a ? a->id + 1 : 0); h = mix(h, b ? b->id + 1 : 0); h = mix(h, d ? d->id + 1 : 0);
    h = mix(h, (u64)c); h = mix(h, (u64)(c >> 64)); return h;
}
static void bounds(E* e);
static E* mk(u8 op, u8 w, E* a, E* b, E* d, u128 c) {
    u64 h = hashNode(op, w, a, b, d, c);
    size_t m = g_tab.size() - 1;
    for (size_t i = h & m;; i = (i + 1) & m) {
        E* e = g_tab[i];
        if (!e) break;
        if (e->op == op && e->w == w && e->k[0] == a && e->k[1] == b && e->k[2] == d && e->c == c) return e;
    }
    if (g_arenaLeft < sizeof(E)) { g_arenaLeft = 1 << 20; g_arena = (char*)aligned_alloc(16, g_arenaLeft); }
    E* e = (E*)g_arena; g_arena += sizeof(E); g_arenaLeft -= sizeof(E);
    memset(e, 0, sizeof(E));
    e->op = op; e->w = w; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->c = c; e->id = g_id++;
    if (op == X_SYM) { u32 s = (u32)c & 127; e->sup[s >> 6] = 1ull << (s & 63); e->onesym = (u32)c + 1; }
    else {
        e->onesym = 0xffffffffu;
        for (E* x : e->k) if (x) {
            e->sup[0] |= x->sup[0]; e->sup[1] |= x->sup[1];
            if (x->onesym == 0xffffffffu) continue;
            if (e->onesym == 0xffffffffu) e->onesym = x->onesym;
            else if (e->onesym != x->onesym) e->onesym = 0;
        }
    }
    e->lo = 0; e->hi = mask64(w);
    if (w <= 64) bounds(e);
    if ((++g_count) * 2 > g_tab.size()) {
        std::vector<E*> nt(g_tab.size() * 2, nullptr); size_t nm = nt.size() - 1;
        for (E* x : g_tab) if (x) { size_t i = hashNode(x->op, x->w, x->k[0], x->k[1], x->k[2], x->c) & nm; while (nt[i]) i = (i + 1) & nm; nt[i] = x; }
        g_tab.swap(nt); m = nm;
    }
    size_t i = h & m; while (g_tab[i]) i = (i + 1) & m; g_tab[i] = e;
    return e;
}
static void bounds(E* e) {
    u64 M = mask64(e->w);
    E *a = e->k[0], *b = e->k[1];
    switch (e->op) {
    case X_CONST: e->lo = e->hi = (u64)e->c; break;
    case X_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
    case X_SEXT: if (a->hi < (1ull << (a->w - 1))) { e->lo = a->lo; e->hi = a->hi; } break;
    case X_ADD: { u128 l = (u128)a->lo + b->lo, h = (u128)a->hi + b->hi; if (h <= M) { e->lo = (u64)l; e->hi = (u64)h; }
        else if (l > M && (l >> e->w) == (h >> e->w)) { e->lo = (u64)l & M; e->hi = (u64)h & M; } break; }
    case X_SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
    case X_MUL: { u128 h = (u128)a->hi * b->hi; if (h <= M) { e->lo = a->lo * b->lo; e->hi = (u64)h; } break; }
    case X_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
    case X_UREM: if (b->lo > 0) { e->hi = std::min(a->hi, b->hi - 1); } break;
    case X_AND: e->hi = std::min(a->hi, b->hi); break;
    case X_OR: case X_XOR: { u64 h = a->hi | b->hi; while (h & (h + 1)) h |= h >> 1; e->hi = h & M; if (e->op == X_OR) e->lo = std::max(a->lo, b->lo); break; }
    case X_SHL: if (isC(b) && (u64)b->c < e->w) { u128 h = (u128)a->hi << (u64)b->c; if (h <= M) { e->lo = a->lo << (u64)b->c; e->hi = (u64)h; } } break;
    case X_LSHR: if (isC(b) && (u64)b->c < e->w) { e->lo = a->lo >> (u64)b->c; e->hi = a->hi >> (u64)b->c; } else e->hi = a->hi; break;
    case X_EXTRACT: if (e->c == 0 && a->w <= 64 && a->hi <= M) { e->lo = a->lo; e->hi = a->hi; }
        else if (a->w <= 64 && (u64)e->c + e->w == a->w) { e->lo = a->lo >> (u64)e->c; e->hi = a->hi >> (u64)e->c; } break;
    case X_CONCAT: e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; break;
    case X_ITE: e->lo = std::min(b->lo, e->k[2]->lo); e->hi = std::max(b->hi, e->k[2]->hi); break;
    case X_TABLE: { Table* t = (Table*)(uintptr_t)(u64)e->c; e->lo = t->lo; e->hi = t->hi; break; }
    default: break;
    }
}
E* mkConst(u128 v, unsigned w) { return mk(X_CONST, w, 0, 0, 0, v & maskw(w)); }
E* mkSym(u32 idx, unsigned w) { return mk(X_SYM, w, 0, 0, 0, idx); }

u128 foldBin(EOp op, u128 a, u128 b, unsigned w) {
    u128 m = maskw(w); a &= m; b &= m;
    switch (op) {
    case X_ADD: return (a + b) & m; case X_SUB: return (a - b) & m; case X_MUL: return (a * b) & m;
    case X_UDIV: return b ? a / b : m; case X_UREM: return b ? a % b : a;
    case X_SDIV: { s128 x = sx128(a, w), y = sx128(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case X_SREM: { s128 x = sx128(a, w), y = sx128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case X_AND: return a & b; case X_OR: return a | b; case X_XOR: return a ^ b;
    case X_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case X_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case X_ASHR: return (u128)(sx128(a, w) >> (unsigned)(b >= w ? w - 1 : b)) & m;
    case X_EQ: return a == b; case X_ULT: return a < b; case X_ULE: return a <= b;
    case X_SLT: return sx128(a, w) < sx128(b, w); case X_SLE: return sx128(a, w) <= sx128(b, w);
    default: abort();
    }
}
static inline bool isCmp(u8 op) { return op >= X_EQ && op <= X_SLE; }
static inline bool commut(u8 op) { return op == X_ADD || op == X_MUL || op == X_AND || op == X_OR || op == X_XOR || op == X_EQ; }

E* mkNot(E* a) {
    if (isC(a)) return mkConst(!a->c, 1);
    if (a->op == X_XOR && isC(a->k[1])) return a->k[0];
    if (a->op == X_ULT) return mkBin(X_ULE, a->k[1], a->k[0]);
    if (a->op == X_ULE) return mkBin(X_ULT, a->k[1], a->k[0]);
    if (a->op == X_SLT) return mkBin(X_SLE, a->k[1], a->k[0]);
    if (a->op == X_SLE) return mkBin(X_SLT, a->k[1], a->k[0]);
    return mk(X_XOR, 1, a, mkConst(1, 1), 0, 0);
}
static bool constIte(E* e) { return e->op == X_ITE && isC(e->k[1]) && isC(e->k[2]); }

E* mkBin(EOp op, E* a, E* b) {
    unsigned w = a->w, rw = isCmp(op) ? 1 : w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
    if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), rw);
    if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    u128 M = maskw(w);
    if (isC(b)) {
        u128 c = b->c;
        // push into ITE of constants
        if (constIte(a)) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        switch (op) {
        case X_ADD: if (!c) return a;
            if (a->op == X_ADD && isC(a->k[1])) return mkBin(X_ADD, a->k[0], mkConst(a->k[1]->c + c, w)); break;
        case X_SUB: return mkBin(X_ADD, a, mkConst((u128)0 - c, w));
        case X_MUL: if (!c) return b; if (c == 1) return a;
            if (!(c & (c - 1))) { unsigned s = 0; while (!((c >> s) & 1)) s++; return mkBin(X_SHL, a, mkConst(s, w)); } break;
        case X_UDIV: if (c == 1) return a;
            if (c && !(c & (c - 1))) { unsigned s = 0; while (!((c >> s) & 1)) s++; return mkBin(X_LSHR, a, mkConst(s, w)); } break;
        case X_UREM: if (c && !(c & (c - 1))) return mkBin(X_AND, a, mkConst(c - 1, w)); break;
        case X_AND: if (!c) return b; if (c == M) return a;
            if (a->op == X_AND && isC(a->k[1])) return mkBin(X_AND, a->k[0], mkConst(a->k[1]->c & c, w));
            // low mask -> zext(extract)
            if (!(c & (c + 1))) { unsigned n = 0; while ((c >> n) & 1) n++; return mkZext(mkExtract(a, 0, n), w); }
            if (a->op == X_ZEXT && (c & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a;
            if (a->op == X_ZEXT) return mkZext(mkBin(X_AND, a->k[0], mkConst(c, a->k[0]->w)), w);
            break;
        case X_OR: if (!c) return a; if (c == M) return b; break;
        case X_XOR: if (!c) return a; if (w == 1) return mkNot(a);
            if (a->op == X_XOR && isC(a->k[1])) return mkBin(X_XOR, a->k[0], mkConst(a->k[1]->c ^ c, w)); break;
        case X_SHL: if (!c) return a; if (c >= w) return mkConst(0, w);
            return mkConcat(mkExtract(a, 0, w - (unsigned)c), mkConst(0, (unsigned)c));
        case X_LSHR: if (!c) return a; if (c >= w) return mkConst(0, w);
            return mkZext(mkExtract(a, (unsigned)c, w - (unsigned)c), w);
        case X_ASHR: if (!c) return a; if (c >= w) c = w - 1;
            return mkSext(mkExtract(a, (unsigned)c, w - (unsigned)c), w);
        case X_EQ:
            if (w == 1) return c ? a : mkNot(a);
            if (w <= 64 && (c < a->lo || c > a->hi)) return mkConst(0, 1);
            if (a->op == X_ZEXT) { if (c >> a->k[0]->w) return mkConst(0, 1); return mkBin(X_EQ, a->k[0], mkConst(c, a->k[0]->w)); }
            if (a->op == X_SEXT) { unsigned kw = a->k[0]->w; if ((((u128)sx128(c & maskw(kw), kw)) & M) != c) return mkConst(0, 1);
                return mkBin(X_EQ, a->k[0], mkConst(c, kw)); }
            if (a->op == X_ADD && isC(a->k[1])) return mkBin(X_EQ, a->k[0], mkConst(c - a->k[1]->c, w));
            if (a->op == X_XOR && isC(a->k[1])) return mkBin(X_EQ, a->k[0], mkConst(c ^ a->k[1]->c, w));
            if (a->op == X_SUB && c == 0) return mkBin(X_EQ, a->k[0], a->k[1]);
            if (a->op == X_CONCAT) { unsigned lw = a->k[1]->w;
                E* h = mkBin(X_EQ, a->k[0], mkConst(c >> lw, a->k[0]->w)); E* l = mkBin(X_EQ, a->k[1], mkConst(c, lw)); return mkBin(X_AND, h, l); }
            if (a->op == X_ITE && isC(a->k[1]) && a->k[1]->c != c) return mkBin(X_AND, mkNot(a->k[0]), mkBin(X_EQ, a->k[2], b));
            if (a->op == X_ITE && isC(a->k[2]) && a->k[2]->c != c) return mkBin(X_AND, a->k[0], mkBin(X_EQ, a->k[1], b));
            break;
        case X_ULT: if (!c) return mkConst(0, 1); if (c == 1) return mkBin(X_EQ, a, mkConst(0, w));
            if (a->op == X_ZEXT) { unsigned kw = a->k[0]->w; if (c > maskw(kw)) return mkConst(1, 1); return mkBin(X_ULT, a->k[0], mkConst(c, kw)); } break;
        case X_ULE: if (c == M) return mkConst(1, 1); return mkBin(X_ULT, a, mkConst(c + 1, w));
        case X_SLE: if (sx128(c, w) == sx128(M >> 1, w)) return mkConst(1, 1); return mkBin(X_SLT, a, mkConst(c + 1, w));
        default: break;
        }
    } else if (isC(a)) {
        u128 c = a->c;
        if (constIte(b)) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
        switch (op) {
        case X_SHL: case X_LSHR: case X_UDIV: case X_UREM: if (!c && op != X_UDIV && op != X_UREM) return a; break;
        case X_ULT: if (c == M) return mkConst(0, 1);
            if (b->op == X_ZEXT) { unsigned kw = b->k[0]->w; if (c >= maskw(kw)) return mkConst(0, 1); return mkBin(X_ULT, mkConst(c, kw), b->k[0]); } break;
        case X_ULE: if (!c) return mkConst(1, 1); return mkBin(X_ULT, mkConst(c - 1, w), b);
        case X_SLE: if (sx128(c, w) == -(s128)(M >> 1) - 1) return mkConst(1, 1); return mkBin(X_SLT, mkConst(c - 1, w), b);
        default: break;
        }
    }
    if (a == b) switch (op) {
        case X_SUB: case X_XOR: return mkConst(0, w); case X_AND: case X_OR: return a;
        case X_EQ: case X_ULE: case X_SLE: return mkConst(1, 1); case X_ULT: case X_SLT: return mkConst(0, 1);
        default: break; }
    if (w <= 64) switch (op) {
        case X_EQ: if (a->lo > b->hi || b->lo > a->hi) return mkConst(0, 1); break;
        case X_ULT: if (a->hi < b->lo) return mkConst(1, 1); if (a->lo >= b->hi) return mkConst(0, 1); break;
        case X_ULE: if (a->hi <= b->lo) return mkConst(1, 1); if (a->lo > b->hi) return mkConst(0, 1); break;
        case X_SLT: case X_SLE: { u64 h = 1ull << (w - 1); if (a->hi < h && b->hi < h) return mkBin(op == X_SLT ? X_ULT : X_ULE, a, b);
            if (a->lo >= h && b->lo >= h) return mkBin(op == X_SLT ? X_ULT : X_ULE, a, b);
            if (a->lo >= h && b->hi < h) return mkConst(1, 1); if (b->lo >= h && a->hi < h) return mkConst(0, 1); break; }
        case X_SDIV: { u64 h = 1ull << (w - 1); if (a->hi < h && b->hi < h) return mkBin(X_UDIV, a, b); break; }
        case X_SREM: { u64 h = 1ull << (w - 1); if (a->hi < h && b->hi < h) return mkBin(X_UREM, a, b); break; }
        case X_UREM: if (a->hi < b->lo) return a; break;
        default: break; }
    // both zext of the same width
    if ((op == X_EQ || op == X_ULT || op == X_ULE) && a->op == X_ZEXT && b->op == X_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
    if ((op == X_EQ || op == X_SLT || op == X_SLE) && a->op == X_SEXT && b->op == X_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
    if (w == 1) {
        if (op == X_EQ) return mkNot(mkBin(X_XOR, a, b));
        if (op == X_AND) { if (a->op == X_XOR && isC(a->k[1]) && a->k[0] == b) return mkConst(0, 1); if (b->op == X_XOR && isC(b->k[1]) && b->k[0] == a) return mkConst(0, 1); }
        if (op == X_OR) { if (a->op == X_XOR && isC(a->k[1]) && a->k[0] == b) return mkConst(1, 1); if (b->op == X_XOR && isC(b->k[1]) && b->k[0] == a) return mkConst(1, 1); }
        if (op == X_XOR) { // pull negations out
            if (a->op == X_XOR && isC(a->k[1])) return mkNot(mkBin(X_XOR, a->k[0], b));
            if (b->op == X_XOR && isC(b->k[1])) return mkNot(mkBin(X_XOR, a, b->k[0])); }
    }
    // disjoint or of concat/zext pieces
    if ((op == X_OR || op == X_ADD || op == X_XOR)) {
        for (int t = 0; t < 2; t++) { E* p = t ? b : a; E* q = t ? a : b;
            if (p->op == X_CONCAT && isC(p->k[1]) && !p->k[1]->c) { unsigned lw = p->k[1]->w;
                if (q->op == X_ZEXT && q->k[0]->w <= lw) return mkConcat(p->k[0], mkZext(q->k[0], lw));
                if (isC(q) && !(q->c >> lw)) return mkConcat(p->k[0], mkConst(q->c, lw)); } 
            if (p->op == X_ZEXT && q->op == X_CONCAT && isC(q->k[1]) && !q->k[1]->c && p->k[0]->w <= q->k[1]->w) return mkConcat(q->k[0], mkZext(p->k[0], q->k[1]->w));
        }
    }
    return mk(op, rw, a, b, 0, 0);
}
E* mkZext(E* a, unsigned w) {
    if (a->w == w) return a; if (a->w > w) return mkExtract(a, 0, w);
    if (isC(a)) return mkConst(a->c, w);
    if (a->op == X_ZEXT) return mkZext(a->k[0], w);
    if (constIte(a)) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
    return mk(X_ZEXT, w, a, 0, 0, 0);
}
E* mkSext(E* a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return mkConst((u128)sx128(a->c, a->w), w);
    if (a->op == X_ZEXT) return mkZext(a->k[0], w);
    if (a->op == X_SEXT) return mkSext(a->k[0], w);
    if (a->w <= 64 && a->hi < (1ull << (a->w - 1))) return mkZext(a, w);
    if (constIte(a)) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
    return mk(X_SEXT, w, a, 0, 0, 0);
}
E* mkTrunc(E* a, unsigned w) { return mkExtract(a, 0, w); }
E* mkExtract(E* a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    if (isC(a)) return mkConst(a->c >> off, w);
    switch (a->op) {
    case X_EXTRACT: return mkExtract(a->k[0], off + (unsigned)a->c, w);
    case X_ZEXT: { unsigned kw = a->k[0]->w; if (off >= kw) return mkConst(0, w); if (off + w <= kw) return mkExtract(a->k[0], off, w);
        return mkZext(mkExtract(a->k[0], off, kw - off), w); }
    case X_SEXT: { unsigned kw = a->k[0]->w; if (off + w <= kw) return mkExtract(a->k[0], off, w); if (off == 0) return mkSext(a->k[0], w);
        if (off < kw) return mkSext(mkExtract(a->k[0], off, kw - off), w); break; }
    case X_CONCAT: { unsigned lw = a->k[1]->w; if (off >= lw) return mkExtract(a->k[0], off - lw, w); if (off + w <= lw) return mkExtract(a->k[1], off, w);
        return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off)); }
    case X_AND: case X_OR: case X_XOR: return mkBin((EOp)a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
    case X_ADD: case X_SUB: case X_MUL: if (off == 0) return mkBin((EOp)a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case X_ITE: if (isC(a->k[1]) || isC(a->k[2]) ) return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w)); 
        return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
    case X_TABLE: { Table* t = (Table*)(uintptr_t)(u64)a->c; std::vector<u64> v; for (u64 x : t->v) v.push_back((x >> off) & mask64(w)); return mkTable(a->k[0], v, w); }
    default: break;
    }
    if (a->w <= 64 && off && !(a->hi >> off)) return mkConst(0, w);
    return mk(X_EXTRACT, w, a, 0, 0, off);
}
E* mkConcat(E* h, E* l) {
    unsigned w = h->w + l->w;
    if (isC(h) && isC(l)) return mkConst((h->c << l->w) | l->c, w);
    if (isC(h) && !h->c) return mkZext(l, w);
    if (h->op == X_EXTRACT && l->op == X_EXTRACT && h->k[0] == l->k[0] && (unsigned)h->c == (unsigned)l->c + l->w) return mkExtract(h->k[0], (unsigned)l->c, w);
    if (h->op == X_EXTRACT && h->k[0] == l && (unsigned)h->c == l->w) return mkExtract(l, 0, w);
    if (h->op == X_ZEXT) return mkZext(mkConcat(h->k[0], l), w);
    if (h->op == X_CONCAT && l->op != X_CONCAT) { // try to join the low part
        E* x = h->k[1]; if ((x->op == X_EXTRACT && l->op == X_EXTRACT && x->k[0] == l->k[0] && (unsigned)x->c == (unsigned)l->c + l->w) || (isC(x) && isC(l))) return mkConcat(h->k[0], mkConcat(x, l)); }
    if (l->op == X_CONCAT && h->op == X_EXTRACT && l->k[0]->op == X_EXTRACT && h->k[0] == l->k[0]->k[0] && (unsigned)h->c == (unsigned)l->k[0]->c + l->k[0]->w)
        return mkConcat(mkConcat(h, l->k[0]), l->k[1]);
    if (l->op == X_TABLE && h->op == X_TABLE && h->k[0] == l->k[0]) {
        Table* a = (Table*)(uintptr_t)(u64)h->c; Table* b = (Table*)(uintptr_t)(u64)l->c;
        if (w <= 64 && a->v.size() == b->v.size()) { std::vector<u64> v; for (size_t i = 0; i < a->v.size(); i++) v.push_back((a->v[i] << l->w) | b->v[i]); return mkTable(l->k[0], v, w); } }
    if (h->op == X_ITE && l->op == X_ITE && h->k[0] == l->k[0]) return mkIte(h->k[0], mkConcat(h->k[1], l->k[1]), mkConcat(h->k[2], l->k[2]));
    if (constIte(h) && isC(l)) return mkIte(h->k[0], mkConcat(h->k[1], l), mkConcat(h->k[2], l));
    return mk(X_CONCAT, w, h, l, 0, 0);
}
E* mkIte(E* c, E* a, E* b) {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == X_XOR && isC(c->k[1])) return mkIte(c->k[0], b, a);
    if (a->w == 1) {
        if (isC(a)) return a->c ? mkBin(X_OR, c, b) : mkBin(X_AND, mkNot(c), b);
        if (isC(b)) return b->c ? mkBin(X_OR, mkNot(c), a) : mkBin(X_AND, c, a);
    }
    if (a->op == X_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
    if (b->op == X_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
    if (a->op == X_ZEXT && b->op == X_ZEXT && a->k[0]->w == b->k[0]->w) return mkZext(mkIte(c, a->k[0], b->k[0]), a->w);
    if (a->op == X_ZEXT && isC(b) && !(b->c >> a->k[0]->w)) return mkZext(mkIte(c, a->k[0], mkConst(b->c, a->k[0]->w)), a->w);
    if (b->op == X_ZEXT && isC(a) && !(a->c >> b->k[0]->w)) return mkZext(mkIte(c, mkConst(a->c, b->k[0]->w), b->k[0]), a->w);
    return mk(X_ITE, a->w, c, a, b, 0);
}
static std::unordered_map<u64, std::vector<Table*>> g_tables;
E* mkTable(E* idx, const std::vector<u64>& vals, unsigned w) {
    if (isC(idx)) { u64 i = (u64)idx->c; return mkConst(i < vals.size() ? vals[i] : vals.back(), w); }
    bool same = true; u64 lo = ~0ull, hi = 0;
    size_t a = std::min<u64>(idx->lo, vals.size() - 1), z = std::min<u64>(idx->hi, vals.size() - 1);
    for (size_t i = a; i <= z; i++) { if (vals[i] != vals[a]) same = false; lo = std::min(lo, vals[i]); hi = std::max(hi, vals[i]); }
    if (same) return mkConst(vals[a], w);
    u64 h = w; for (u64 x : vals) h = mix(h, x);
    Table* t = nullptr;
    for (Table* c : g_tables[h]) if (c->v == vals) { t = c; break; }
    if (!t) { t = new Table; t->v = vals; t->lo = *std::min_element(vals.begin(), vals.end()); t->hi = *std::max_element(vals.begin(), vals.end()); g_tables[h].push_back(t); }
    return mk(X_TABLE, w, idx, 0, 0, (u128)(uintptr_t)t);
}
u128 evalE(E* e) {
    if (e->op == X_CONST) return e->c;
    if (e->op == X_SYM) return (u32)e->c < g_wit.size() ? (u128)g_wit[(u32)e->c] : 0;
    if (e->evStamp == g_evStamp) return e->ev;
    u128 r;
    switch (e->op) {
    case X_ZEXT: r = evalE(e->k[0]); break;
    case X_SEXT: r = (u128)sx128(evalE(e->k[0]), e->k[0]->w) & maskw(e->w); break;
    case X_EXTRACT: r = (evalE(e->k[0]) >> (unsigned)e->c) & maskw(e->w); break;
    case X_CONCAT: r = (evalE(e->k[0]) << e->k[1]->w) | evalE(e->k[1]); break;
    case X_ITE: r = evalE(e->k[0]) ? evalE(e->k[1]) : evalE(e->k[2]); break;
    case X_TABLE: { Table* t = (Table*)(uintptr_t)(u64)e->c; u64 i = (u64)evalE(e->k[0]); r = i < t->v.size() ? t->v[i] : t->v.back(); break; }
    default: r = foldBin((EOp)e->op, evalE(e->k[0]), evalE(e->k[1]), e->k[0]->w);
    }
    e->evStamp = g_evStamp; e->ev = r;
    return r;
}
const TT* truthTable(E* e) {
    if (e->tt) return e->tt;
    TT* t = new TT; memset(t, 0, sizeof *t);
    // compose cheaply for boolean structure
    if (e->op == X_XOR && isC(e->k[1])) { const TT* a = truthTable(e->k[0]); for (int i = 0; i < 4; i++) t->b[i] = ~a->b[i]; e->tt = t; return t; }
    if ((e->op == X_AND || e->op == X_OR) && e->w == 1) { const TT* a = truthTable(e->k[0]); const TT* b = truthTable(e->k[1]);
        for (int i = 0; i < 4; i++) t->b[i] = e->op == X_AND ? a->b[i] & b->b[i] : a->b[i] | b->b[i]; e->tt = t; return t; }
    u32 s = e->onesym - 1; u64 save = g_wit[s], st = g_evStamp;
    static u64 tmpStamp = 1ull << 62;
    for (unsigned v = 0; v < 256; v++) { g_wit[s] = v; g_evStamp = ++tmpStamp; if (evalE(e)) t->b[v >> 6] |= 1ull << (v & 63); }
    g_wit[s] = save; g_evStamp = st; e->tt = t;
    return t;
}
std::string dumpE(E* e, int d) {
    static const char* n[] = {"c", "s", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>", ">>s", "=", "<u", "<=u", "<s", "<=s", "zx", "sx", "ex", "cat", "ite", "tab"};
    char b[64];
    if (e->op == X_CONST) { snprintf(b, 64, "%llu:%d", (unsigned long long)e->c, e->w); return b; }
    if (e->op == X_SYM) { return g_syms.size() > (u32)e->c ? g_syms[(u32)e->c].name : "sym"; }
    if (!d) return "...";
    std::string s = "("; s += n[e->op]; if (e->op == X_EXTRACT) { snprintf(b, 64, "[%d+%d]", (int)e->c, e->w); s += b; }
    for (E* k : e->k) if (k) { s += " "; s += dumpE(k, d - 1); }
    return s + ")";
}
