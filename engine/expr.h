// Hash-consed bit-vector expressions for the symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t s64; typedef unsigned __int128 u128; typedef __int128 s128;

enum EOp : u8 { X_CONST, X_SYM, X_ADD, X_SUB, X_MUL, X_UDIV, X_SDIV, X_UREM, X_SREM,
    X_AND, X_OR, X_XOR, X_SHL, X_LSHR, X_ASHR, X_EQ, X_ULT, X_ULE, X_SLT, X_SLE,
    X_ZEXT, X_SEXT, X_EXTRACT, X_CONCAT, X_ITE, X_TABLE };

struct Table { std::vector<u64> v; u64 lo, hi; };
struct TT { u64 b[4]; };

struct E {
    u8 op, w;
    u16 pad;
    u32 id;
    E* k[3];
    u128 c;          // constant / symbol index / extract offset / table pointer
    u64 lo, hi;      // unsigned interval (w<=64)
    u64 sup[2];      // folded symbol support
    u32 onesym;      // symbol index+1 if the support is one single symbol, 0 otherwise; 0xffffffff none
    u64 evStamp;
    u128 ev;
    TT* tt;
    void* z;         // solver term
    void* lit;       // solver assumption literal
};
static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline s128 sx128(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (s128)((v ^ m) - m); }
static inline s64 sx64(u64 v, unsigned w) { if (w >= 64) return (s64)v; u64 m = 1ull << (w - 1); v &= mask64(w); return (s64)((v ^ m) - m); }

struct Sym { std::string name; u8 w; E* e; };
extern std::vector<Sym> g_syms;

E* mkConst(u128 v, unsigned w);
E* mkSym(u32 idx, unsigned w);
E* mkBin(EOp op, E* a, E* b);
E* mkZext(E* a, unsigned w);
E* mkSext(E* a, unsigned w);
E* mkTrunc(E* a, unsigned w);
E* mkExtract(E* a, unsigned off, unsigned w);
E* mkConcat(E* hi, E* lo);
E* mkIte(E* c, E* a, E* b);
E* mkTable(E* idx, const std::vector<u64>& vals, unsigned w);
E* mkNot(E* a); // width 1
static inline bool isC(E* e) { return e->op == X_CONST; }
u128 foldBin(EOp op, u128 a, u128 b, unsigned w);
extern u64 g_evStamp;
extern std::vector<u64> g_wit;
u128 evalE(E* e);
u64 exprCount();
const TT* truthTable(E* e); // e: width 1, single 8-bit symbol
std::string dumpE(E* e, int depth = 6);
