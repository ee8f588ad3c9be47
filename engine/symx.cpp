// symx: bounded symbolic execution of LLVM bitcode. Every symbolic branch is decided by
// satisfiability queries; every sx_check is discharged by a solver query over all values
// that follow the current path, or yields a model.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <atomic>
#include <chrono>
#include <map>
#include <set>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
using namespace llvm;
typedef std::string str_t;

struct Val { u64 c; E* e; };
static inline Val VC(u64 c) { return Val{c, nullptr}; }

enum Op : u16 { OI_BIN = 1, OI_ICMP, OI_FBIN, OI_FCMP, OI_FNEG, OI_ZEXT, OI_SEXT, OI_TRUNC, OI_COPY, OI_FPCAST, OI_LOAD, OI_STORE, OI_GEP, OI_ALLOCA,
    OI_SELECT, OI_BR, OI_CBR, OI_SWITCH, OI_RET, OI_CALL, OI_UNREACHABLE, OI_VINS, OI_VEXT, OI_VSHUF, OI_CMPXCHG, OI_RMW, OI_UNSUP, OI_XV, OI_IV };

struct Leaf { u8 w; bool fp; u32 off; };
struct Ins {
    u16 op; u8 w, w2; u16 n; u16 sub;
    int dst, a, b, c; u32 x, y;
    u32 cache; u8 hit; const Instruction* I;
};
struct Edge { u32 target; u32 first, count; };
struct Copy { int dst, src; };
struct GepT { u64 off; std::vector<std::tuple<int, u8, u64>> v; };
struct Fn;
struct CallArg { int base; u16 n; u8 w; };
struct CallT { Fn* fn; int target; std::vector<CallArg> args; std::vector<u8> leafW; };
struct SwT { std::vector<u64> vals; std::vector<u32> edge; u32 defEdge; u8 w; std::vector<std::vector<u64>> groups; };
typedef void (*Builtin)(Ins&, CallT&);
struct Fn {
    Function* F; std::string name; bool compiled = false; Builtin bi = nullptr; bool ext = false;
    std::vector<Ins> code; std::vector<Val> consts; std::vector<Edge> edges; std::vector<Copy> copies;
    std::vector<GepT> geps; std::vector<CallT> calls; std::vector<SwT> sws; std::vector<std::vector<Leaf>> leaves; std::vector<int> extra;
    u32 nreg = 0; u32 addr = 0; u32 gidBase = 0; bool executed = false;
};
struct Obj { u64 base, size; u8* data; E** sym; u32 idx; u8 alive, ro, kind; int nextInFrame; const char* name; };
enum { K_GLOBAL, K_HEAP, K_STACK };
struct Frame { Frame* parent; Fn* fn; u32 pc; u32 nreg; u64 epoch; int allocaHead; u64 va; int retDst; u32 depth; Val r[1]; };
struct TR { u8 kind, len; u32 a; u64 b, c; };
enum { T_MEM, T_SYM, T_BLK, T_ALIVE, T_FRAME, T_DOM };
struct Blk { u64 len; u8* d; E** s; };
struct Input { str_t name; u32 first, count; u8 w; u64 val; };
struct Ob { u64 c; E* e; };
struct CP { size_t trail; Frame* frame; Frame* ft; size_t nobjs; u64 nextAddr; size_t npc, nsym, nlog, nobs; u64 multi[2]; std::vector<u64> altWit, wit; E* altCond; bool has; u64 epoch; u64 steps; };
struct PathEnd {};

static LLVMContext LC; static Module* M; static const DataLayout* DL;
static std::map<const Function*, Fn*> fnMap; static std::vector<Fn*> fnByAddr; static std::map<const GlobalVariable*, u64> gAddr;
static std::vector<Obj*> objs; static u64 nextAddr = 0x100000;
static char* frameArena; static Frame* ft; // next free frame slot
static Frame* cur;
static std::vector<TR> trail; static std::vector<CP> cps; static u64 epochCtr = 0, epochNow = 0;
static std::vector<E*> pcs; static u64 multi[2]; static size_t nsym; static std::vector<Input> inlog; static std::vector<Ob> obs;
struct Dom { u64 b[4]; }; static std::vector<Dom> dom;
static u64 steps, pathSteps; static u64 maxPathSteps = 200000000ull; static unsigned maxDepth = 3000;
static bool replay = false; struct RIn { str_t name; std::vector<u64> v; }; static std::vector<RIn> rin; static size_t rpos; static size_t rposPick;
static str_t outDir = "."; static bool keepGoing = false; static u64 seed = 1; static bool noFork = false; static int verbose = 0;

struct Shared {
    std::atomic<int> idle; std::atomic<int> stop; std::atomic<u64> paths, steps, queries, cacheHits, sat, unsat, unknown, assertQ, assertConc, viol, cutCount, crashed, forks, solverUs, maxUs, forksCP, incomplete, samples, nexpr;
    std::atomic<u64> violHash[64]; std::atomic<int> nviol;
    std::atomic<int> lock; int ncut; struct { char r[120]; u64 n; } cut[200]; int ncov; struct { char r[80]; u64 n; } cov[200];
    int nchk; struct { char r[120]; u64 sym, conc; } chk[200];
    double deadline; 
};
static Shared* sh; static u8* shHit; static size_t nHit;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double tStart, lastFork; static u64 npaths;
static std::map<str_t, u64> cutL, covL; static std::map<str_t, std::pair<u64, u64>> chkL; static u64 assertConc, incompleteL;

static str_t locOf(const Instruction* I) {
    if (!I) return "?";
    str_t s; const DebugLoc& d = I->getDebugLoc();
    if (d) { s = d->getFilename().str() + ":" + std::to_string(d->getLine()); } else s = "?";
    return s;
}
static str_t jesc(const str_t& s) { str_t o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static str_t demang(const str_t& s) { return llvm::demangle(s); }
static str_t backtraceStr() {
    str_t s; int n = 0;
    for (Frame* f = cur; f && n < 12; f = f->parent, n++) { s += (n ? " <- " : ""); str_t d = demang(f->fn->name); auto p = d.find('('); s += d.substr(0, p) + "@" + locOf(f->fn->code[f->pc].I); }
    return s;
}
[[noreturn]] static void endPath() { throw PathEnd(); }
[[noreturn]] static void cutPath(const str_t& why) { cutL[why]++; if (verbose) fprintf(stderr, "CUT %s at %s\n", why.c_str(), backtraceStr().c_str()); endPath(); }
static str_t inputsJson() {
    str_t s = "[";
    for (size_t i = 0; i < inlog.size(); i++) {
        Input& in = inlog[i]; if (i) s += ","; s += "{\"name\":\"" + jesc(in.name) + "\",\"w\":" + std::to_string(in.w) + ",\"v\":[";
        if (in.count == 0) s += std::to_string(in.val);
        for (u32 k = 0; k < in.count; k++) { if (k) s += ","; s += std::to_string(in.first + k < g_wit.size() ? g_wit[in.first + k] : 0); }
        s += "]}";
    }
    return s + "]";
}
static void violation(const str_t& kind, const str_t& msg, const str_t& kf = "") {
    u64 h = std::hash<str_t>()(kind + msg + (kind == "assert" ? "" : locOf(cur->fn->code[cur->pc].I)));
    while (sh->lock.exchange(1)) usleep(10);
    int n = sh->nviol; bool dup = false; for (int i = 0; i < n && i < 64; i++) if (sh->violHash[i] == h) dup = true;
    if (!dup && n < 64) { sh->violHash[n] = h; sh->nviol = n + 1; }
    sh->lock = 0;
    if (dup) return;
    if (kf.empty()) { sh->viol++; if (!keepGoing) sh->stop = 1; }
    char fn[64]; snprintf(fn, 64, "/viol_%d_%d.json", (int)getpid(), n);
    FILE* f = fopen((outDir + fn).c_str(), "w");
    if (f) { fprintf(f, "{\"kind\":\"%s\",\"msg\":\"%s\",\"kf\":\"%s\",\"where\":\"%s\",\"inputs\":%s}\n", kind.c_str(), jesc(msg).c_str(), jesc(kf).c_str(), jesc(backtraceStr()).c_str(), inputsJson().c_str()); fclose(f); }
    if (verbose || replay) fprintf(stderr, "VIOL %s %s at %s\n", kind.c_str(), msg.c_str(), backtraceStr().c_str());
}
[[noreturn]] static void memError(const str_t& msg) { violation("memory", msg); endPath(); }

// ---------------------------------------------------------------- trail, choice points
static inline bool needLog(Obj* o) { return !cps.empty() && o->idx < cps.back().nobjs; }
static void saveFrame(Frame* f) {
    size_t n = sizeof(Frame) + sizeof(Val) * f->nreg; char* p = (char*)malloc(n); memcpy(p, f, n);
    trail.push_back(TR{T_FRAME, 0, (u32)0, (u64)(uintptr_t)f, (u64)(uintptr_t)p});
    f->epoch = epochNow;
}
static void undoTo(size_t n) {
    while (trail.size() > n) {
        TR& t = trail.back();
        switch (t.kind) {
        case T_MEM: memcpy(objs[t.a]->data + t.b, &t.c, t.len); break;
        case T_SYM: objs[t.a]->sym[t.b] = (E*)(uintptr_t)t.c; break;
        case T_BLK: { Blk* b = (Blk*)(uintptr_t)t.c; Obj* o = objs[t.a]; memcpy(o->data + t.b, b->d, b->len);
            if (o->sym) { if (b->s) memcpy(o->sym + t.b, b->s, b->len * sizeof(E*)); else memset(o->sym + t.b, 0, b->len * sizeof(E*)); }
            free(b->d); free(b->s); delete b; break; }
        case T_ALIVE: objs[t.a]->alive = (u8)t.b; break;
        case T_FRAME: { Frame* f = (Frame*)(uintptr_t)t.b; Frame* s = (Frame*)(uintptr_t)t.c; memcpy(f, s, sizeof(Frame) + sizeof(Val) * s->nreg); free(s); break; }
        case T_DOM: { memcpy(&dom[t.a], (void*)(uintptr_t)t.c, sizeof(Dom)); free((void*)(uintptr_t)t.c); break; }
        }
        trail.pop_back();
    }
}
static void popObjsTo(size_t n) { while (objs.size() > n) { Obj* o = objs.back(); free(o->data); free(o->sym); delete o; objs.pop_back(); } }
static void restoreCP(CP& c) {
    undoTo(c.trail); popObjsTo(c.nobjs); nextAddr = c.nextAddr; cur = c.frame; ft = c.ft; pcs.resize(c.npc); nsym = c.nsym; inlog.resize(c.nlog); obs.resize(c.nobs);
    multi[0] = c.multi[0]; multi[1] = c.multi[1]; pathSteps = c.steps;
}
static void addPC(E* c) {
    pcs.push_back(c);
    if (c->onesym && c->onesym != 0xffffffffu && g_syms[c->onesym - 1].w == 8) {
        u32 s = c->onesym - 1; const TT* t = truthTable(c);
        if (!cps.empty()) { void* p = malloc(sizeof(Dom)); memcpy(p, &dom[s], sizeof(Dom)); trail.push_back(TR{T_DOM, 0, s, 0, (u64)(uintptr_t)p}); }
        for (int i = 0; i < 4; i++) dom[s].b[i] &= t->b[i];
    } else { multi[0] |= c->sup[0]; multi[1] |= c->sup[1]; }
}
static void setWit(const std::vector<u64>& w) { g_wit = w; g_evStamp++; }
static bool backtrack() {
    npaths++;
    while (!cps.empty()) {
        if (cps.back().has) {
            CP c = std::move(cps.back()); restoreCP(c); cps.pop_back();
            epochNow = cps.empty() ? 0 : cps.back().epoch;
            setWit(c.altWit); addPC(c.altCond);
            return true;
        }
        cps.pop_back();
        // CP without alternative: state restored by an older one
    }
    return false;
}
static void pushCP(E* altCond, std::vector<u64>&& altWit) {
    cps.emplace_back(); CP& c = cps.back();
    c.trail = trail.size(); c.frame = cur; c.ft = ft; c.nobjs = objs.size(); c.nextAddr = nextAddr; c.npc = pcs.size(); c.nsym = nsym; c.nlog = inlog.size(); c.nobs = obs.size();
    c.multi[0] = multi[0]; c.multi[1] = multi[1]; c.altCond = altCond; c.altWit = std::move(altWit); c.has = true; c.epoch = ++epochCtr; c.steps = pathSteps;
    epochNow = c.epoch; saveFrame(cur);
}
static void slice(E* c, std::vector<E*>& out) {
    u64 a = c->sup[0], b = c->sup[1]; static std::vector<char> in; in.assign(pcs.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pcs.size(); i++) if (!in[i] && ((pcs[i]->sup[0] & a) | (pcs[i]->sup[1] & b))) { in[i] = 1; if ((pcs[i]->sup[0] & ~a) | (pcs[i]->sup[1] & ~b)) ch = true; a |= pcs[i]->sup[0]; b |= pcs[i]->sup[1]; out.push_back(pcs[i]); } }
}
static u64 fastUnary;
static SatRes feasible(E* c, std::vector<u64>& w) {
    w = g_wit;
    if (c->onesym && c->onesym != 0xffffffffu && g_syms[c->onesym - 1].w == 8) {
        u32 s = c->onesym - 1; const TT* t = truthTable(c); u64 o[4], any = 0; for (int i = 0; i < 4; i++) any |= o[i] = dom[s].b[i] & t->b[i];
        if (!any) { fastUnary++; return SR_UNSAT; }
        if (!((multi[(s & 127) >> 6] >> (s & 63)) & 1)) { fastUnary++; for (int i = 0; i < 4; i++) if (o[i]) { w[s] = i * 64 + __builtin_ctzll(o[i]); break; } return SR_SAT; }
    }
    std::vector<E*> cs; slice(c, cs); cs.push_back(c);
    return solveConj(cs, &w, false);
}
static void maybeShare(); static void checkLimits();
static bool decide(E* c) {
    if (isC(c)) return c->c != 0;
    bool v = evalE(c) != 0;
    E* mine = v ? c : mkNot(c); 
    for (size_t i = pcs.size(), k = 0; i-- > 0 && k < 24; k++) if (pcs[i] == mine) return v;
    E* other = v ? mkNot(c) : c; std::vector<u64> w;
    checkLimits();
    SatRes r = feasible(other, w);
    if (r == SR_UNSAT) return v;
    if (r == SR_UNKNOWN) { incompleteL++; cutL["solver-unknown"]++; addPC(mine); return v; }
    pushCP(other, std::move(w)); addPC(mine);
    if ((cps.size() & 3) == 0 || sh->idle.load(std::memory_order_relaxed) > 0) maybeShare();
    return v;
}
static E* toE(Val v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static Val fromE(E* e) { if (e->op == X_CONST && e->w <= 64) return VC((u64)e->c); return Val{0, e}; }
static u64 concretize(E* e) { if (isC(e)) return (u64)e->c; for (;;) { u64 v = (u64)evalE(e); if (decide(mkBin(X_EQ, e, mkConst(v, e->w)))) return v; } }
static u64 concVal(Val v) { return v.e ? concretize(v.e) : v.c; }

// ---------------------------------------------------------------- work sharing
static void flushStats() {
    sh->paths += npaths; npaths = 0; sh->steps += steps; steps = 0; sh->assertConc += assertConc; assertConc = 0; sh->incomplete += incompleteL; incompleteL = 0;
    sh->queries += g_ss.queries; sh->cacheHits += g_ss.cacheHits; sh->sat += g_ss.sat; sh->unsat += g_ss.unsat; sh->unknown += g_ss.unknown; sh->assertQ += g_ss.assertQueries; sh->solverUs += (u64)(g_ss.time * 1e6);
    u64 mx = (u64)(g_ss.maxTime * 1e6); u64 o = sh->maxUs; if (mx > o) sh->maxUs = mx;
    g_ss = SolverStats(); sh->forksCP += fastUnary; fastUnary = 0;
    while (sh->lock.exchange(1)) usleep(10);
    for (auto& p : cutL) { int i; for (i = 0; i < sh->ncut; i++) if (p.first.compare(0, 119, sh->cut[i].r) == 0) break; if (i == sh->ncut && i < 200) { strncpy(sh->cut[i].r, p.first.c_str(), 119); sh->cut[i].n = 0; sh->ncut++; } if (i < 200) sh->cut[i].n += p.second; }
    for (auto& p : covL) { int i; for (i = 0; i < sh->ncov; i++) if (p.first.compare(0, 79, sh->cov[i].r) == 0) break; if (i == sh->ncov && i < 200) { strncpy(sh->cov[i].r, p.first.c_str(), 79); sh->cov[i].n = 0; sh->ncov++; } if (i < 200) sh->cov[i].n += p.second; }
    for (auto& p : chkL) { int i; for (i = 0; i < sh->nchk; i++) if (p.first.compare(0, 119, sh->chk[i].r) == 0) break; if (i == sh->nchk && i < 200) { strncpy(sh->chk[i].r, p.first.c_str(), 119); sh->nchk++; } if (i < 200) { sh->chk[i].sym += p.second.first; sh->chk[i].conc += p.second.second; } }
    sh->lock = 0;
    cutL.clear(); covL.clear(); chkL.clear();
    for (auto* f : fnByAddr) if (f->compiled) for (Ins& i : f->code) if (i.hit && i.y != 0xffffffffu) shHit[i.y] = 1;
}
static bool isChild = false; static std::vector<pid_t> kids;
static void reap(bool block) {
    for (size_t i = 0; i < kids.size();) { int st; pid_t p = waitpid(kids[i], &st, block ? 0 : WNOHANG); if (p == kids[i]) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { sh->crashed++; sh->idle++; } kids.erase(kids.begin() + i); } else i++; }
}
static void maybeShare() {
    if (noFork || cps.size() < 1) return;
    if (sh->idle.load(std::memory_order_relaxed) <= 0) return;
    double t = now(); if (t - lastFork < 0.003) return;
    size_t k = 0; while (k < cps.size() && !cps[k].has) k++;
    if (k + 1 >= cps.size()) return; // keep the newest for ourselves
    int x = sh->idle.fetch_sub(1); if (x <= 0) { sh->idle++; return; }
    lastFork = t; reap(false); fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { sh->idle++; return; }
    if (p) { kids.push_back(p); cps[k].has = false; sh->forks++; return; }
    isChild = true; kids.clear(); npaths = 0; steps = 0; assertConc = 0; incompleteL = 0; g_ss = SolverStats(); cutL.clear(); covL.clear(); chkL.clear(); fastUnary = 0;
    while (cps.size() > k + 1) { cps.pop_back(); }
    CP c = std::move(cps.back()); restoreCP(c); cps.clear();
    trail.clear(); // nothing older will be restored
    epochNow = 0; setWit(c.altWit); addPC(c.altCond);
    throw (int)1; // resume in the interpreter loop
}

// ---------------------------------------------------------------- memory
static Obj* newObj(u64 size, u8 kind, const char* name, unsigned align = 16) {
    if (align < 16) align = 16;
    nextAddr = (nextAddr + align - 1) / align * align;
    Obj* o = new Obj; o->base = nextAddr; o->size = size; o->data = (u8*)malloc(size ? size : 1); memset(o->data, kind == K_GLOBAL ? 0 : 0xA5, size); o->sym = nullptr; o->idx = objs.size(); o->alive = 1; o->ro = 0; o->kind = kind; o->nextInFrame = -1; o->name = name;
    nextAddr += size + 48; objs.push_back(o); return o;
}
static Obj* findObj(u64 a) { // containing object or the last one starting at or below a
    size_t lo = 0, hi = objs.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (objs[m]->base <= a) lo = m + 1; else hi = m; }
    return lo ? objs[lo - 1] : nullptr;
}
static str_t hex(u64 a) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)a); return b; }
static str_t objDesc(Obj* o, u64 a) { return str_t(o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global") + " object '" + (o->name ? o->name : "") + "' size " + std::to_string(o->size) + " offset " + std::to_string((s64)(a - o->base)); }
static Obj* checkAddr(u64 a, u64 n, bool write, u32* cache) {
    Obj* o = nullptr;
    if (cache && *cache < objs.size()) { Obj* t = objs[*cache]; if (a - t->base < t->size) o = t; }
    if (!o) { o = findObj(a); }
    if (!o || a < o->base || a - o->base + n > o->size || (a - o->base > o->size)) {
        if (n == 0) return o;
        if (a < 4096) memError(str_t(write ? "write" : "read") + " through null pointer " + hex(a));
        if (!o || a - o->base > o->size + 48) memError(str_t(write ? "write" : "read") + " of wild address " + hex(a));
        memError(str_t(write ? "write" : "read") + " of " + std::to_string(n) + " bytes out of bounds of " + objDesc(o, a));
    }
    if (!o->alive) memError(str_t(write ? "write to" : "read of") + " dead " + objDesc(o, a));
    if (write && o->ro) memError("write to constant " + objDesc(o, a));
    if (cache) *cache = o->idx;
    return o;
}
static void ensureSym(Obj* o) { if (!o->sym) o->sym = (E**)calloc(o->size ? o->size : 1, sizeof(E*)); }
static void storeAt(Obj* o, u64 off, Val v, unsigned w) {
    unsigned n = (w + 7) / 8; bool lg = needLog(o);
    if (lg) for (unsigned i = 0; i < n; i += 8) { unsigned l = std::min(8u, n - i); u64 old = 0; memcpy(&old, o->data + off + i, l); trail.push_back(TR{T_MEM, (u8)l, o->idx, off + i, old}); }
    if (!v.e) {
        if (n <= 8) memcpy(o->data + off, &v.c, n); else { memset(o->data + off, 0, n); memcpy(o->data + off, &v.c, 8); }
        if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { if (lg) trail.push_back(TR{T_SYM, 0, o->idx, off + i, (u64)(uintptr_t)o->sym[off + i]}); o->sym[off + i] = nullptr; }
        return;
    }
    E* e = v.e; if (e->w != n * 8) e = mkZext(e, n * 8);
    if (isC(e)) { u128 c = e->c; memcpy(o->data + off, &c, n); if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { if (lg) trail.push_back(TR{T_SYM, 0, o->idx, off + i, (u64)(uintptr_t)o->sym[off + i]}); o->sym[off + i] = nullptr; } return; }
    ensureSym(o);
    for (unsigned i = 0; i < n; i++) {
        E* b = mkExtract(e, i * 8, 8); E* nw = nullptr;
        if (isC(b)) o->data[off + i] = (u8)b->c; else nw = b;
        if (nw != o->sym[off + i]) { if (lg) trail.push_back(TR{T_SYM, 0, o->idx, off + i, (u64)(uintptr_t)o->sym[off + i]}); o->sym[off + i] = nw; }
    }
}
static E* byteAt(Obj* o, u64 off) { return o->sym && o->sym[off] ? o->sym[off] : mkConst(o->data[off], 8); }
static Val loadAt(Obj* o, u64 off, unsigned w) {
    unsigned n = (w + 7) / 8;
    bool s = false; if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { s = true; break; }
    if (!s) {
        if (n <= 8) { u64 v = 0; memcpy(&v, o->data + off, n); return VC(w < 64 ? v & mask64(w) : v); }
        u128 v = 0; memcpy(&v, o->data + off, n); return Val{0, mkConst(v, w)};
    }
    E* e = byteAt(o, off); for (unsigned i = 1; i < n; i++) e = mkConcat(byteAt(o, off + i), e);
    if (n * 8 != w) e = mkTrunc(e, w);
    return fromE(e);
}
static unsigned tzE(E* e) { // known trailing zero bits
    if (isC(e)) return e->c ? (u64)e->c ? __builtin_ctzll((u64)e->c) : 64 : 64;
    switch (e->op) { case X_ZEXT: case X_SEXT: { unsigned t = tzE(e->k[0]); return t; } case X_CONCAT: { unsigned t = tzE(e->k[1]); return t >= e->k[1]->w ? e->k[1]->w + std::min(tzE(e->k[0]), e->k[0]->w * 1u) : t; }
    case X_ADD: case X_SUB: case X_OR: case X_AND: return std::min(tzE(e->k[0]), tzE(e->k[1])); case X_MUL: return tzE(e->k[0]) + tzE(e->k[1]); case X_ITE: return std::min(tzE(e->k[1]), tzE(e->k[2])); default: return 0; }
}
// Resolve a (possibly symbolic) address: returns object; off concrete unless *so set.
static Obj* resolve(Val a, u64 n, bool write, u64& off, E** so, u32* cache) {
    if (!a.e) { Obj* o = checkAddr(a.c, n, write, cache); off = a.c - o->base; if (so) *so = nullptr; return o; }
    u64 v = (u64)evalE(a.e); Obj* o = checkAddr(v, n, write, cache);
    E* rel = mkBin(X_SUB, a.e, mkConst(o->base, 64));
    decide(mkBin(X_ULE, rel, mkConst(o->size - n, 64)));
    if (!so) { off = concretize(rel); return o; }
    if (isC(rel)) { off = (u64)rel->c; *so = nullptr; return o; }
    *so = rel; off = (u64)evalE(rel); return o;
}
static Val loadVal(Val a, unsigned w, u32* cache) {
    u64 off; E* so; unsigned n = (w + 7) / 8; Obj* o = resolve(a, n, false, off, &so, cache);
    if (!so) return loadAt(o, off, w);
    u64 lo = so->lo, hi = std::min<u64>(so->hi, o->size - n); unsigned tz = std::min(tzE(so), 12u); u64 stp = 1ull << tz;
    if (w > 64 || n > 8) { off = concretize(so); return loadAt(o, off, w); }
    if (lo & (stp - 1)) lo = (lo + stp - 1) & ~(stp - 1);
    // index base: offsets may carry a constant addend that hides the stride
    if (stp == 1 && so->op == X_ADD && isC(so->k[1])) { unsigned t2 = std::min(tzE(so->k[0]), 12u); if (t2) { u64 c = (u64)so->k[1]->c; stp = 1ull << t2; u64 r = c & (stp - 1); u64 l2 = (lo & ~(stp - 1)) + r; if (l2 < lo) l2 += stp; lo = l2; } }
    if (hi < lo) hi = lo;
    u64 cnt = (hi - lo) / stp + 1;
    if (cnt > 8192) { off = concretize(so); return loadAt(o, off, w); }
    bool anySym = false; if (o->sym) for (u64 p = lo; p < hi + n && !anySym; p++) if (o->sym[p]) anySym = true;
    if (!anySym) {
        E* idx = mkBin(X_SUB, so, mkConst(lo, 64)); unsigned sft = 0; while ((1ull << sft) < stp) sft++;
        if (sft) idx = mkBin(X_LSHR, idx, mkConst(sft, 64));
        unsigned bits = 1; while ((1ull << bits) < cnt) bits++;
        std::vector<u64> vals; for (u64 p = lo; p <= hi; p += stp) vals.push_back(loadAt(o, p, w).c);
        // if interval says the index fits, narrow it
        if (idx->op == X_ZEXT) idx = idx->k[0];
        if (idx->w > bits && idx->w <= 64 && !(idx->hi >> bits)) idx = mkExtract(idx, 0, bits);
        return fromE(mkTable(idx, vals, w));
    }
    if (cnt > 64) { off = concretize(so); return loadAt(o, off, w); }
    E* r = nullptr;
    for (u64 p = hi - ((hi - lo) % stp);; p -= stp) { E* v = toE(loadAt(o, p, w), w); r = r ? mkIte(mkBin(X_EQ, so, mkConst(p, 64)), v, r) : v; if (p < lo + stp) break; }
    return fromE(r);
}
static void storeVal(Val a, Val v, unsigned w, u32* cache) { u64 off; Obj* o = resolve(a, (w + 7) / 8, true, off, nullptr, cache); storeAt(o, off, v, w); }
static void logBlock(Obj* o, u64 off, u64 n) {
    if (!needLog(o) || !n) return;
    Blk* b = new Blk; b->len = n; b->d = (u8*)malloc(n); memcpy(b->d, o->data + off, n); b->s = nullptr;
    if (o->sym) { b->s = (E**)malloc(n * sizeof(E*)); memcpy(b->s, o->sym + off, n * sizeof(E*)); }
    trail.push_back(TR{T_BLK, 0, o->idx, off, (u64)(uintptr_t)b});
}
static void copyMem(Val d, Val s, u64 n) {
    if (!n) return;
    u64 so, dO; Obj* os = resolve(s, n, false, so, nullptr, nullptr); Obj* od = resolve(d, n, true, dO, nullptr, nullptr);
    logBlock(od, dO, n);
    memmove(od->data + dO, os->data + so, n);
    if (os->sym) { ensureSym(od); memmove(od->sym + dO, os->sym + so, n * sizeof(E*)); }
    else if (od->sym) memset(od->sym + dO, 0, n * sizeof(E*));
}
static void setMem(Val d, Val v, u64 n) {
    if (!n) return;
    u64 o; Obj* od = resolve(d, n, true, o, nullptr, nullptr); logBlock(od, o, n);
    if (v.e) { E* b = mkTrunc(v.e, 8); if (!isC(b)) { ensureSym(od); for (u64 i = 0; i < n; i++) od->sym[o + i] = b; return; } v.c = (u64)b->c; }
    memset(od->data + o, (int)(v.c & 0xff), n); if (od->sym) memset(od->sym + o, 0, n * sizeof(E*));
}
static void setAlive(Obj* o, u8 v) { if (needLog(o)) trail.push_back(TR{T_ALIVE, 0, o->idx, o->alive, 0}); o->alive = v; }
static str_t cstr(Val a) { u64 off; Obj* o = resolve(a, 1, false, off, nullptr, nullptr); str_t s; while (off < o->size && o->data[off] && !(o->sym && o->sym[off])) s += (char)o->data[off++]; return s; }

// ---------------------------------------------------------------- constants
static void flatten(Type* t, std::vector<Leaf>& out, u32 off) {
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); out.push_back(Leaf{(u8)std::min(w, 255u), false, off}); }
    else if (t->isPointerTy()) out.push_back(Leaf{64, false, off});
    else if (t->isDoubleTy()) out.push_back(Leaf{64, true, off});
    else if (t->isFloatTy()) out.push_back(Leaf{32, true, off});
    else if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), out, off + (u32)sl->getElementOffset(i)); }
    else if (auto* at = dyn_cast<ArrayType>(t)) { u32 es = (u32)DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), out, off + i * es); }
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) { u32 es = (u32)DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), out, off + i * es); }
    else if (t->isVoidTy()) {}
    else out.push_back(Leaf{255, false, off});
}
static u32 nLeaves(Type* t) { std::vector<Leaf> l; flatten(t, l, 0); return l.size(); }
static Fn* getFn(const Function* F);
static u64 constScalar(const Constant* c);
static void constLeaves(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { std::vector<Leaf> l; flatten(t, l, 0); for (auto& x : l) out.push_back(x.w > 64 && x.w <= 128 ? Val{0, mkConst(0, x.w)} : VC(0)); return; }
    if (t->isAggregateType() || t->isVectorTy()) { unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) constLeaves(c->getAggregateElement(i), out); return; }
    if (auto* ci = dyn_cast<ConstantInt>(c)) { unsigned w = ci->getBitWidth(); if (w > 64) { const APInt& a = ci->getValue(); u128 v = 0; for (unsigned i = 0; i < a.getNumWords() && i < 2; i++) v |= (u128)a.getRawData()[i] << (64 * i); out.push_back(Val{0, mkConst(v, std::min(w, 128u))}); return; } }
    out.push_back(VC(constScalar(c)));
}
static u64 constScalar(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getRawData()[0] & mask64(ci->getBitWidth());
    if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getRawData()[0];
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto* gv = dyn_cast<GlobalVariable>(c)) { auto it = gAddr.find(gv); if (it == gAddr.end()) { fprintf(stderr, "no addr %s\n", gv->getName().str().c_str()); abort(); } return it->second; }
    if (auto* f = dyn_cast<Function>(c)) return getFn(f)->addr;
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constScalar(ga->getAliasee());
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); return constScalar(ce->getOperand(0)) + off.getSExtValue(); }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: { u64 v = constScalar(ce->getOperand(0)); Type* t = ce->getType(); return t->isIntegerTy() ? v & mask64(t->getIntegerBitWidth()) : v; }
        case Instruction::Trunc: return constScalar(ce->getOperand(0)) & mask64(ce->getType()->getIntegerBitWidth());
        case Instruction::Add: return constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1));
        case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & mask64(ce->getType()->getIntegerBitWidth());
        case Instruction::Mul: return constScalar(ce->getOperand(0)) * constScalar(ce->getOperand(1));
        case Instruction::ICmp: { u64 a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; } break; }
        default: break;
        }
    }
    str_t s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); return 0;
}
static void initMem(u8* p, const Constant* c) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
    std::vector<Leaf> l; flatten(c->getType(), l, 0); std::vector<Val> v; constLeaves(c, v);
    for (size_t i = 0; i < l.size(); i++) { if (l[i].w > 128) continue; u128 x = v[i].e ? v[i].e->c : v[i].c; memcpy(p + l[i].off, &x, (l[i].w + 7) / 8); }
}

// ---------------------------------------------------------------- compile
static std::map<str_t, Builtin>& builtins();
static Fn* getFn(const Function* F) {
    auto it = fnMap.find(F); if (it != fnMap.end()) return it->second;
    Fn* f = new Fn; f->F = const_cast<Function*>(F); f->name = F->getName().str(); f->addr = 0x2000 + 16 * fnByAddr.size(); fnByAddr.push_back(f); fnMap[F] = f;
    f->ext = F->isDeclaration();
    auto& B = builtins(); auto b = B.find(f->name); if (b != B.end()) f->bi = b->second;
    return f;
}
struct Compiler {
    Fn* f; std::map<const Value*, int> slot; std::map<const BasicBlock*, u32> bpc; std::vector<std::pair<u32, const BasicBlock*>> edgeFix; std::map<const Constant*, int> cmap;
    int cval(const Constant* c) { auto it = cmap.find(c); if (it != cmap.end()) return it->second; std::vector<Val> v; constLeaves(c, v); int b = -1 - (int)f->consts.size(); if (v.empty()) v.push_back(VC(0)); for (auto& x : v) f->consts.push_back(x); return cmap[c] = b; }
    int kconst(u64 v) { f->consts.push_back(VC(v)); return -(int)f->consts.size(); }
    int opn(const Value* v) { if (auto* c = dyn_cast<Constant>(v)) return cval(c); auto it = slot.find(v); if (it != slot.end()) return it->second; if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return kconst(0); fprintf(stderr, "no slot\n"); abort(); }
    u8 wid(Type* t) { if (t->isIntegerTy()) return std::min(t->getIntegerBitWidth(), 255u); if (t->isPointerTy() || t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (auto* v = dyn_cast<FixedVectorType>(t)) return wid(v->getElementType()); return 0; }
    u32 edge(const BasicBlock* from, const BasicBlock* to) {
        Edge e; e.first = f->copies.size(); std::vector<Copy> cs;
        for (auto& phi : to->phis()) { u32 n = nLeaves(phi.getType()); int d = slot[&phi], s = opn(phi.getIncomingValueForBlock(from)); for (u32 i = 0; i < n; i++) cs.push_back(Copy{d + (int)i, s >= 0 ? s + (int)i : s - (int)i}); }
        // detect overlap: a source that is an earlier destination
        for (auto& c : cs) f->copies.push_back(c);
        e.count = cs.size(); e.target = 0; f->edges.push_back(e); edgeFix.push_back({(u32)f->edges.size() - 1, to}); return f->edges.size() - 1;
    }
    void run(Fn* fn) {
        f = fn; Function& F = *f->F; u32 r = 0;
        for (auto& a : F.args()) { slot[&a] = r; r += std::max(1u, nLeaves(a.getType())); }
        for (auto& bb : F) for (auto& I : bb) if (!I.getType()->isVoidTy()) { slot[&I] = r; r += std::max(1u, nLeaves(I.getType())); }
        f->nreg = r; u32 gid = f->gidBase;
        for (auto& bb : F) {
            bpc[&bb] = f->code.size();
            for (auto& I : bb) { u32 g = gid++; if (isa<PHINode>(I)) continue; size_t n0 = f->code.size(); emit(I); for (size_t i = n0; i < f->code.size(); i++) f->code[i].y = g; }
        }
        for (auto& p : edgeFix) f->edges[p.first].target = bpc[p.second];
        f->compiled = true;
    }
    Ins mk(u16 op, const Instruction& I) { Ins i; memset(&i, 0, sizeof i); i.op = op; i.I = &I; i.n = 1; i.cache = 0xffffffff; i.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; i.w = wid(I.getType()); return i; }
    void emit(const Instruction& I) {
        auto out = [&](Ins i) { f->code.push_back(i); };
        Type* T = I.getType(); u16 nv = 1; if (auto* vt = dyn_cast<FixedVectorType>(T)) nv = vt->getNumElements();
        if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
            bool fp = bo->getType()->isFPOrFPVectorTy(); Ins i = mk(fp ? OI_FBIN : OI_BIN, I); i.n = nv; i.a = opn(bo->getOperand(0)); i.b = opn(bo->getOperand(1)); i.sub = bo->getOpcode();
            if (!fp) { switch (bo->getOpcode()) { case Instruction::Add: i.sub = X_ADD; break; case Instruction::Sub: i.sub = X_SUB; break; case Instruction::Mul: i.sub = X_MUL; break; case Instruction::UDiv: i.sub = X_UDIV; break; case Instruction::SDiv: i.sub = X_SDIV; break; case Instruction::URem: i.sub = X_UREM; break; case Instruction::SRem: i.sub = X_SREM; break; case Instruction::And: i.sub = X_AND; break; case Instruction::Or: i.sub = X_OR; break; case Instruction::Xor: i.sub = X_XOR; break; case Instruction::Shl: i.sub = X_SHL; break; case Instruction::LShr: i.sub = X_LSHR; break; case Instruction::AShr: i.sub = X_ASHR; break; default: break; } if (i.w > 128) i.op = OI_UNSUP; }
            return out(i);
        }
        if (auto* ci = dyn_cast<ICmpInst>(&I)) { Ins i = mk(OI_ICMP, I); i.n = nv; i.a = opn(ci->getOperand(0)); i.b = opn(ci->getOperand(1)); i.w = wid(ci->getOperand(0)->getType()); i.sub = ci->getPredicate(); return out(i); }
        if (auto* ci = dyn_cast<FCmpInst>(&I)) { Ins i = mk(OI_FCMP, I); i.n = nv; i.a = opn(ci->getOperand(0)); i.b = opn(ci->getOperand(1)); i.w = wid(ci->getOperand(0)->getType()); i.sub = ci->getPredicate(); return out(i); }
        if (I.getOpcode() == Instruction::FNeg) { Ins i = mk(OI_FNEG, I); i.n = nv; i.a = opn(I.getOperand(0)); return out(i); }
        if (auto* c = dyn_cast<CastInst>(&I)) {
            Ins i = mk(OI_COPY, I); i.a = opn(c->getOperand(0)); i.w2 = wid(c->getOperand(0)->getType()); i.n = std::max<u32>(1, nLeaves(T));
            switch (c->getOpcode()) {
            case Instruction::ZExt: i.op = OI_ZEXT; break; case Instruction::SExt: i.op = OI_SEXT; break; case Instruction::Trunc: i.op = OI_TRUNC; break;
            case Instruction::PtrToInt: i.op = i.w < 64 ? OI_TRUNC : i.w == 64 ? OI_COPY : OI_ZEXT; break; case Instruction::IntToPtr: i.op = i.w2 < 64 ? OI_ZEXT : i.w2 == 64 ? OI_COPY : OI_TRUNC; break;
            case Instruction::BitCast: if (nLeaves(c->getOperand(0)->getType()) != nLeaves(T)) i.op = OI_UNSUP; break; case Instruction::AddrSpaceCast: break;
            default: i.op = OI_FPCAST; i.sub = c->getOpcode(); }
            return out(i);
        }
        if (auto* l = dyn_cast<LoadInst>(&I)) { Ins i = mk(OI_LOAD, I); i.a = opn(l->getPointerOperand()); std::vector<Leaf> lv; flatten(T, lv, 0); i.n = lv.size(); if (lv.size() == 1) i.w = lv[0].w; if (lv.size() != 1) { i.x = f->leaves.size(); f->leaves.push_back(lv); } for (auto& x : lv) if (x.w > 128) i.op = OI_UNSUP; return out(i); }
        if (auto* s = dyn_cast<StoreInst>(&I)) { Ins i = mk(OI_STORE, I); i.a = opn(s->getPointerOperand()); i.b = opn(s->getValueOperand()); std::vector<Leaf> lv; flatten(s->getValueOperand()->getType(), lv, 0); i.n = lv.size(); if (lv.size() == 1) i.w = lv[0].w; else { i.x = f->leaves.size(); f->leaves.push_back(lv); } for (auto& x : lv) if (x.w > 128) i.op = OI_UNSUP; return out(i); }
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            Ins i = mk(OI_GEP, I); if (T->isVectorTy()) { i.op = OI_UNSUP; return out(i); } i.a = opn(g->getPointerOperand()); GepT gt; gt.off = 0;
            for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                Value* ix = gi.getOperand();
                if (StructType* st = gi.getStructTypeOrNull()) { gt.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                u64 es = DL->getTypeAllocSize(gi.getIndexedType());
                if (auto* k = dyn_cast<ConstantInt>(ix)) gt.off += es * (u64)k->getSExtValue(); else gt.v.push_back({opn(ix), wid(ix->getType()), es});
            }
            i.x = f->geps.size(); f->geps.push_back(gt); return out(i);
        }
        if (auto* a = dyn_cast<AllocaInst>(&I)) { Ins i = mk(OI_ALLOCA, I); i.a = opn(a->getArraySize()); i.x = (u32)DL->getTypeAllocSize(a->getAllocatedType()); i.sub = (u16)std::min<u64>(a->getAlign().value(), 4096); i.w2 = wid(a->getArraySize()->getType()); return out(i); }
        if (auto* s = dyn_cast<SelectInst>(&I)) { Ins i = mk(OI_SELECT, I); i.c = opn(s->getCondition()); i.a = opn(s->getTrueValue()); i.b = opn(s->getFalseValue()); std::vector<Leaf> lv; flatten(T, lv, 0); i.n = lv.size(); i.sub = s->getCondition()->getType()->isVectorTy(); i.x = f->leaves.size(); f->leaves.push_back(lv); return out(i); }
        if (isa<FreezeInst>(&I)) { Ins i = mk(OI_COPY, I); i.a = opn(I.getOperand(0)); i.n = std::max<u32>(1, nLeaves(T)); return out(i); }
        if (auto* b = dyn_cast<BranchInst>(&I)) { if (b->isUnconditional()) { Ins i = mk(OI_BR, I); i.x = edge(I.getParent(), b->getSuccessor(0)); return out(i); } Ins i = mk(OI_CBR, I); i.c = opn(b->getCondition()); i.x = edge(I.getParent(), b->getSuccessor(0)); i.a = edge(I.getParent(), b->getSuccessor(1)); return out(i); }
        if (auto* s = dyn_cast<SwitchInst>(&I)) { Ins i = mk(OI_SWITCH, I); i.a = opn(s->getCondition()); SwT t; t.w = wid(s->getCondition()->getType()); t.defEdge = edge(I.getParent(), s->getDefaultDest()); std::map<const BasicBlock*, u32> em; std::map<u32, std::vector<u64>> gm;
            for (auto& c : s->cases()) { auto it = em.find(c.getCaseSuccessor()); u32 e = it != em.end() ? it->second : (em[c.getCaseSuccessor()] = edge(I.getParent(), c.getCaseSuccessor())); u64 v = c.getCaseValue()->getZExtValue(); t.vals.push_back(v); t.edge.push_back(e); }
            i.x = f->sws.size(); f->sws.push_back(t); return out(i); }
        if (auto* rt = dyn_cast<ReturnInst>(&I)) { Ins i = mk(OI_RET, I); i.n = 0; if (rt->getReturnValue()) { i.a = opn(rt->getReturnValue()); i.n = std::max<u32>(1, nLeaves(rt->getReturnValue()->getType())); } return out(i); }
        if (isa<UnreachableInst>(&I)) return out(mk(OI_UNREACHABLE, I));
        if (auto* cb = dyn_cast<CallInst>(&I)) {
            const Function* cf = cb->getCalledFunction(); if (!cf) if (auto* c = dyn_cast<Constant>(cb->getCalledOperand())) { const Value* s = c->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(s)) s = al->getAliasee()->stripPointerCasts(); cf = dyn_cast<Function>(s); }
            if (cf && cf->isIntrinsic()) switch (cf->getIntrinsicID()) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::dbg_assign: return; default: break; }
            Ins i = mk(OI_CALL, I); CallT c; c.fn = nullptr; c.target = 0;
            if (cb->isInlineAsm()) { auto* ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty() && T->isVoidTy()) return; i.op = OI_UNSUP; return out(i); }
            if (cf) c.fn = getFn(cf); else c.target = opn(cb->getCalledOperand());
            for (auto& a : cb->args()) { CallArg ca; ca.base = opn(a); ca.n = std::max<u32>(1, nLeaves(a->getType())); ca.w = wid(a->getType()); c.args.push_back(ca); }
            i.n = T->isVoidTy() ? 0 : std::max<u32>(1, nLeaves(T)); if (i.n > 1) { i.sub = f->leaves.size(); std::vector<Leaf> lv; flatten(T, lv, 0); f->leaves.push_back(lv); }
            i.x = f->calls.size(); f->calls.push_back(c); return out(i);
        }
        if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { Ins i = mk(OI_COPY, I); u32 o = aggOff(ev->getAggregateOperand()->getType(), ev->getIndices()); int b = opn(ev->getAggregateOperand()); i.a = b >= 0 ? b + o : b - (int)o; i.n = std::max<u32>(1, nLeaves(T)); return out(i); }
        if (auto* iv = dyn_cast<InsertValueInst>(&I)) { Ins i = mk(OI_COPY, I); i.a = opn(iv->getAggregateOperand()); i.n = nLeaves(T); out(i); Ins j = mk(OI_COPY, I); u32 o = aggOff(T, iv->getIndices()); j.dst += o; j.a = opn(iv->getInsertedValueOperand()); j.n = std::max<u32>(1, nLeaves(iv->getInsertedValueOperand()->getType())); return out(j); }
        if (auto* ee = dyn_cast<ExtractElementInst>(&I)) { if (auto* k = dyn_cast<ConstantInt>(ee->getIndexOperand())) { Ins i = mk(OI_COPY, I); int b = opn(ee->getVectorOperand()); int o = (int)k->getZExtValue(); i.a = b >= 0 ? b + o : b - o; return out(i); } return out(mk(OI_UNSUP, I)); }
        if (auto* ie = dyn_cast<InsertElementInst>(&I)) { if (auto* k = dyn_cast<ConstantInt>(ie->getOperand(2))) { Ins i = mk(OI_COPY, I); i.a = opn(ie->getOperand(0)); i.n = nv; out(i); Ins j = mk(OI_COPY, I); j.dst += (int)k->getZExtValue(); j.a = opn(ie->getOperand(1)); return out(j); } return out(mk(OI_UNSUP, I)); }
        if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { int a = opn(sv->getOperand(0)), b = opn(sv->getOperand(1)); int n0 = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); int d = slot[&I]; for (int m : sv->getShuffleMask()) { Ins j = mk(OI_COPY, I); j.dst = d++; if (m < 0) j.a = kconst(0); else { int base = m < n0 ? a : b; int o = m < n0 ? m : m - n0; j.a = base >= 0 ? base + o : base - o; } out(j); } return; }
        if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) { Ins i = mk(OI_CMPXCHG, I); i.a = opn(cx->getPointerOperand()); i.b = opn(cx->getCompareOperand()); i.c = opn(cx->getNewValOperand()); i.w = wid(cx->getCompareOperand()->getType()); return out(i); }
        if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { Ins i = mk(OI_RMW, I); i.a = opn(rm->getPointerOperand()); i.b = opn(rm->getValOperand()); i.sub = rm->getOperation(); return out(i); }
        if (isa<FenceInst>(&I)) return;
        return out(mk(OI_UNSUP, I));
    }
    u32 aggOff(Type* t, ArrayRef<unsigned> idx) { u32 o = 0; for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) o += nLeaves(st->getElementType(k)); t = st->getElementType(i); } else { t = t->getArrayElementType(); o += i * nLeaves(t); } } return o; }
};
static void compileFn(Fn* f) { Compiler c; c.run(f); }

// ---------------------------------------------------------------- interpreter
static inline Val R(int i) { return i >= 0 ? cur->r[i] : cur->fn->consts[-1 - i]; }
static inline int off_(int a, int i) { return a >= 0 ? a + i : a - i; }
static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; } static u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float asF(u64 v) { float d; u32 x = (u32)v; memcpy(&d, &x, 4); return d; } static u64 fromF(float d) { u32 v; memcpy(&v, &d, 4); return v; }

static Val binop(EOp op, Val a, Val b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
        u64 m = mask64(w), x = a.c, y = b.c;
        switch (op) {
        case X_ADD: return VC((x + y) & m); case X_SUB: return VC((x - y) & m); case X_MUL: return VC((x * y) & m);
        case X_AND: return VC(x & y); case X_OR: return VC(x | y); case X_XOR: return VC(x ^ y);
        case X_SHL: return VC(y >= w ? 0 : (x << y) & m); case X_LSHR: return VC(y >= w ? 0 : x >> y);
        case X_ASHR: return VC((u64)(sx64(x, w) >> (y >= w ? w - 1 : y)) & m);
        case X_UDIV: case X_UREM: case X_SDIV: case X_SREM: if (!y) memError("division by zero"); return VC((u64)foldBin(op, x, y, w));
        default: abort();
        }
    }
    E* y = toE(b, w);
    if (op >= X_UDIV && op <= X_SREM) { if (decide(mkBin(X_EQ, y, mkConst(0, w)))) memError("division by zero"); }
    return fromE(mkBin(op, toE(a, w), y));
}
static Val icmp(unsigned p, Val a, Val b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
        u64 x = a.c, y = b.c; s64 sx = sx64(x, w), sy = sx64(y, w);
        switch (p) { case CmpInst::ICMP_EQ: return VC(x == y); case CmpInst::ICMP_NE: return VC(x != y); case CmpInst::ICMP_ULT: return VC(x < y); case CmpInst::ICMP_ULE: return VC(x <= y); case CmpInst::ICMP_UGT: return VC(x > y); case CmpInst::ICMP_UGE: return VC(x >= y);
        case CmpInst::ICMP_SLT: return VC(sx < sy); case CmpInst::ICMP_SLE: return VC(sx <= sy); case CmpInst::ICMP_SGT: return VC(sx > sy); case CmpInst::ICMP_SGE: return VC(sx >= sy); default: abort(); }
    }
    E *x = toE(a, w), *y = toE(b, w);
    switch (p) { case CmpInst::ICMP_EQ: return fromE(mkBin(X_EQ, x, y)); case CmpInst::ICMP_NE: return fromE(mkNot(mkBin(X_EQ, x, y)));
    case CmpInst::ICMP_ULT: return fromE(mkBin(X_ULT, x, y)); case CmpInst::ICMP_ULE: return fromE(mkBin(X_ULE, x, y)); case CmpInst::ICMP_UGT: return fromE(mkBin(X_ULT, y, x)); case CmpInst::ICMP_UGE: return fromE(mkBin(X_ULE, y, x));
    case CmpInst::ICMP_SLT: return fromE(mkBin(X_SLT, x, y)); case CmpInst::ICMP_SLE: return fromE(mkBin(X_SLE, x, y)); case CmpInst::ICMP_SGT: return fromE(mkBin(X_SLT, y, x)); case CmpInst::ICMP_SGE: return fromE(mkBin(X_SLE, y, x)); default: abort(); }
}
static inline void takeEdge(u32 ei) {
    Fn* f = cur->fn; Edge& e = f->edges[ei];
    if (e.count == 1) { Copy& c = f->copies[e.first]; cur->r[c.dst] = R(c.src); }
    else if (e.count) { Val tmp[256]; std::vector<Val> big; Val* t = tmp; if (e.count > 256) { big.resize(e.count); t = big.data(); }
        for (u32 i = 0; i < e.count; i++) t[i] = R(f->copies[e.first + i].src); for (u32 i = 0; i < e.count; i++) cur->r[f->copies[e.first + i].dst] = t[i]; }
    cur->pc = e.target;
}
static Frame* pushFrame(Fn* f, int retDst) {
    if (!f->compiled) compileFn(f); f->executed = true;
    size_t n = (sizeof(Frame) + sizeof(Val) * f->nreg + 15) & ~15ull;
    if ((char*)ft + n > frameArena + (1ull << 30)) cutPath("limit:frame-arena");
    Frame* fr = ft; ft = (Frame*)((char*)ft + n);
    fr->parent = cur; fr->fn = f; fr->pc = 0; fr->nreg = f->nreg; fr->epoch = epochNow; fr->allocaHead = -1; fr->va = 0; fr->retDst = retDst; fr->depth = cur ? cur->depth + 1 : 0;
    if (fr->depth > maxDepth) { ft = fr; violation("endless", "calls nest without end"); cutPath("limit:call-depth"); }
    memset(fr->r, 0, sizeof(Val) * f->nreg);
    return fr;
}
static void popAllocas(Frame* f) {
    for (int i = f->allocaHead; i >= 0;) {
        Obj* o = objs[i]; int nx = o->nextInFrame;
        if ((size_t)i == objs.size() - 1 && !needLog(o)) { nextAddr = o->base; free(o->data); free(o->sym); delete o; objs.pop_back(); }
        else setAlive(o, 0);
        i = nx;
    }
}
static void doReturn(Val* rv, unsigned n) {
    Frame* f = cur; Val tmp[64]; if (n > 64) cutPath("limit:big-return"); for (unsigned i = 0; i < n; i++) tmp[i] = rv[i];
    popAllocas(f); Frame* p = f->parent; int rd = f->retDst;
    if (!p) { ft = f; cur = nullptr; throw PathEnd(); }
    if (p->epoch < epochNow) saveFrame(p);
    ft = f; cur = p; if (rd >= 0) for (unsigned i = 0; i < n; i++) cur->r[rd + i] = tmp[i];
    cur->pc++;
}
static inline void setDst(Ins& i, Val v) { if (i.dst >= 0) cur->r[i.dst] = v; }

static void doCall(Ins& I) {
    CallT& c = cur->fn->calls[I.x]; Fn* f = c.fn;
    if (!f) {
        u64 t = concVal(R(c.target)); u64 ix = (t - 0x2000) / 16;
        if (t < 0x2000 || (t & 15) || ix >= fnByAddr.size()) memError("call through bad function pointer " + hex(t));
        f = fnByAddr[ix];
    }
    if (f->bi) { f->executed = true; f->bi(I, c); return; }
    if (f->ext) cutPath("extern:" + f->name);
    Frame* fr = pushFrame(f, I.dst); unsigned k = 0, na = f->F->arg_size();
    for (unsigned i = 0; i < c.args.size() && i < na; i++) for (unsigned j = 0; j < c.args[i].n; j++) fr->r[k++] = R(off_(c.args[i].base, j));
    if (f->F->isVarArg()) {
        unsigned nv = c.args.size() > na ? c.args.size() - na : 0; Obj* o = newObj(std::max(8u, nv * 8), K_STACK, "varargs"); o->nextInFrame = -1; fr->allocaHead = o->idx; fr->va = o->base;
        for (unsigned i = 0; i < nv; i++) { CallArg& a = c.args[na + i]; Val v = R(a.base); if (a.w < 64 && v.e) v.e = mkZext(v.e, 64); storeAt(o, i * 8, v, 64); }
    }
    cur = fr;
}

static void checkLimits() {
    if (sh->stop.load(std::memory_order_relaxed)) { throw (int)2; }
    if (now() > sh->deadline) { throw (int)3; }
}
static void interp() {
    for (;;) {
        Ins& I = cur->fn->code[cur->pc];
        I.hit = 1;
        if ((++steps & 0x3fff) == 0) { checkLimits(); }
        if (++pathSteps > maxPathSteps) { incompleteL++; violation("endless", "the code does not come to an end"); cutPath("limit:path-steps"); }
        switch (I.op) {
        case OI_BIN: if (I.n == 1) cur->r[I.dst] = binop((EOp)I.sub, R(I.a), R(I.b), I.w); else for (int k = 0; k < I.n; k++) { Val v = binop((EOp)I.sub, R(off_(I.a, k)), R(off_(I.b, k)), I.w); cur->r[I.dst + k] = v; } cur->pc++; break;
        case OI_ICMP: for (int k = 0; k < I.n; k++) cur->r[I.dst + k] = icmp(I.sub, R(off_(I.a, k)), R(off_(I.b, k)), I.w); cur->pc++; break;
        case OI_ZEXT: for (int k = 0; k < I.n; k++) { Val v = R(off_(I.a, k)); if (v.e || I.w > 64) v = fromE(mkZext(toE(v, I.w2), I.w)); cur->r[I.dst + k] = v; } cur->pc++; break;
        case OI_SEXT: for (int k = 0; k < I.n; k++) { Val v = R(off_(I.a, k)); if (v.e || I.w > 64) v = fromE(mkSext(toE(v, I.w2), I.w)); else v.c = (u64)sx64(v.c, I.w2) & mask64(I.w); cur->r[I.dst + k] = v; } cur->pc++; break;
        case OI_TRUNC: for (int k = 0; k < I.n; k++) { Val v = R(off_(I.a, k)); if (v.e) v = fromE(mkTrunc(v.e, I.w)); else v.c &= mask64(I.w); cur->r[I.dst + k] = v; } cur->pc++; break;
        case OI_COPY: if (I.n == 1) cur->r[I.dst] = R(I.a); else { Val t[64]; int n = std::min<int>(I.n, 64); for (int k = 0; k < n; k++) t[k] = R(off_(I.a, k)); for (int k = 0; k < n; k++) cur->r[I.dst + k] = t[k]; if (I.n > 64) cutPath("limit:big-aggregate"); } cur->pc++; break;
        case OI_LOAD:
            if (I.n == 1) { Val v = loadVal(R(I.a), I.w, &I.cache); cur->r[I.dst] = v; }
            else { auto& lv = cur->fn->leaves[I.x]; Val a = R(I.a); if (a.e) a = VC(concretize(a.e)); for (int k = 0; k < I.n; k++) { Val v = loadVal(VC(a.c + lv[k].off), lv[k].w, nullptr); cur->r[I.dst + k] = v; } }
            cur->pc++; break;
        case OI_STORE:
            if (I.n == 1) storeVal(R(I.a), R(I.b), I.w, &I.cache);
            else { auto& lv = cur->fn->leaves[I.x]; Val a = R(I.a); if (a.e) a = VC(concretize(a.e)); for (int k = 0; k < I.n; k++) storeVal(VC(a.c + lv[k].off), R(off_(I.b, k)), lv[k].w, nullptr); }
            cur->pc++; break;
        case OI_GEP: {
            GepT& g = cur->fn->geps[I.x]; Val p = R(I.a); 
            if (g.off) p = binop(X_ADD, p, VC(g.off), 64);
            for (auto& t : g.v) { Val ix = R(std::get<0>(t)); unsigned w = std::get<1>(t); u64 sc = std::get<2>(t);
                if (!ix.e) { u64 s = w < 64 ? (u64)sx64(ix.c, w) : ix.c; p = binop(X_ADD, p, VC(s * sc), 64); }
                else { E* s = mkSext(ix.e, 64); p = binop(X_ADD, p, fromE(mkBin(X_MUL, s, mkConst(sc, 64))), 64); } }
            cur->r[I.dst] = p; cur->pc++; break; }
        case OI_ALLOCA: {
            u64 n = concVal(R(I.a)) * I.x; Obj* o = newObj(n, K_STACK, "local", I.sub); o->nextInFrame = cur->allocaHead; cur->allocaHead = o->idx; o->name = cur->fn->name.c_str(); cur->r[I.dst] = VC(o->base); cur->pc++; break; }
        case OI_SELECT: {
            auto& lv = cur->fn->leaves[I.x];
            for (int k = 0; k < I.n; k++) {
                Val c = R(I.sub ? off_(I.c, k) : I.c); Val a = R(off_(I.a, k)), b = R(off_(I.b, k));
                if (!c.e) cur->r[I.dst + k] = c.c ? a : b;
                else cur->r[I.dst + k] = fromE(mkIte(c.e, toE(a, lv[k].w), toE(b, lv[k].w)));
            }
            cur->pc++; break; }
        case OI_BR: takeEdge(I.x); break;
        case OI_CBR: { Val c = R(I.c); bool b = c.e ? decide(c.e) : c.c; takeEdge(b ? I.x : (u32)I.a); break; }
        case OI_SWITCH: {
            SwT& t = cur->fn->sws[I.x]; Val v = R(I.a); u64 x = v.e ? (u64)evalE(v.e) : v.c; u32 e = t.defEdge; bool def = true;
            for (size_t k = 0; k < t.vals.size(); k++) if (t.vals[k] == x) { e = t.edge[k]; def = false; break; }
            if (v.e) {
                E* c = mkConst(0, 1);
                for (size_t k = 0; k < t.vals.size(); k++) if (def || t.edge[k] == e) c = mkBin(X_OR, c, mkBin(X_EQ, v.e, mkConst(t.vals[k], t.w)));
                if (def) c = mkNot(c);
                decide(c);
            }
            takeEdge(e); break; }
        case OI_RET: { Val t[64]; int n = std::min<int>(I.n, 64); for (int k = 0; k < n; k++) t[k] = R(off_(I.a, k)); doReturn(t, n); break; }
        case OI_CALL: doCall(I); break;
        case OI_UNREACHABLE: memError("unreachable code executed");
        case OI_FBIN: for (int k = 0; k < I.n; k++) { u64 a = concVal(R(off_(I.a, k))), b = concVal(R(off_(I.b, k))); u64 r;
            if (I.w == 64) { double x = asD(a), y = asD(b), z; switch (I.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmod(x, y); } r = fromD(z); }
            else { float x = asF(a), y = asF(b), z; switch (I.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmodf(x, y); } r = fromF(z); }
            cur->r[I.dst + k] = VC(r); } cur->pc++; break;
        case OI_FNEG: for (int k = 0; k < I.n; k++) { u64 a = concVal(R(off_(I.a, k))); cur->r[I.dst + k] = VC(I.w == 64 ? fromD(-asD(a)) : fromF(-asF(a))); } cur->pc++; break;
        case OI_FCMP: for (int k = 0; k < I.n; k++) { u64 a = concVal(R(off_(I.a, k))), b = concVal(R(off_(I.b, k))); double x = I.w == 64 ? asD(a) : asF(a), y = I.w == 64 ? asD(b) : asF(b); bool un = x != x || y != y, r = false;
            switch (I.sub) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; default: break; }
            cur->r[I.dst + k] = VC(r); } cur->pc++; break;
        case OI_FPCAST: for (int k = 0; k < I.n; k++) { u64 a = concVal(R(off_(I.a, k))), r = 0;
            switch (I.sub) { case Instruction::SIToFP: { s64 s = sx64(a, I.w2); r = I.w == 64 ? fromD((double)s) : fromF((float)s); break; } case Instruction::UIToFP: r = I.w == 64 ? fromD((double)a) : fromF((float)a); break;
            case Instruction::FPToSI: { double d = I.w2 == 64 ? asD(a) : asF(a); r = (u64)(s64)d & mask64(I.w); break; } case Instruction::FPToUI: { double d = I.w2 == 64 ? asD(a) : asF(a); r = (u64)d & mask64(I.w); break; }
            case Instruction::FPExt: r = fromD(asF(a)); break; case Instruction::FPTrunc: r = fromF((float)asD(a)); break; default: cutPath("unsupported:fpcast"); }
            cur->r[I.dst + k] = VC(r); } cur->pc++; break;
        case OI_CMPXCHG: { Val a = R(I.a); if (a.e) a = VC(concretize(a.e)); Val old = loadVal(a, I.w, nullptr); Val eq = icmp(CmpInst::ICMP_EQ, old, R(I.b), I.w); bool b = eq.e ? decide(eq.e) : eq.c; if (b) storeVal(a, R(I.c), I.w, nullptr); cur->r[I.dst] = old; cur->r[I.dst + 1] = VC(b); cur->pc++; break; }
        case OI_RMW: { Val a = R(I.a); if (a.e) a = VC(concretize(a.e)); Val old = loadVal(a, I.w, nullptr), v = R(I.b), n; switch (I.sub) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = binop(X_ADD, old, v, I.w); break; case AtomicRMWInst::Sub: n = binop(X_SUB, old, v, I.w); break; case AtomicRMWInst::And: n = binop(X_AND, old, v, I.w); break; case AtomicRMWInst::Or: n = binop(X_OR, old, v, I.w); break; case AtomicRMWInst::Xor: n = binop(X_XOR, old, v, I.w); break; default: cutPath("unsupported:atomicrmw"); } storeVal(a, n, I.w, nullptr); setDst(I, old); cur->pc++; break; }
        default: { str_t s; raw_string_ostream os(s); I.I->print(os); cutPath("unsupported:" + os.str().substr(0, 60)); }
        }
    }
}

// ---------------------------------------------------------------- builtins
#define ARG(i) R(c.args[i].base)
#define ARGC(i) concVal(ARG(i))
#define NEXT() (cur->pc++)
static void assume(E* c) {
    if (isC(c)) { if (!c->c) { cutL["assume"]++; endPath(); } return; }
    if (evalE(c)) { addPC(c); return; }
    std::vector<u64> w; SatRes r = feasible(c, w);
    if (r != SR_SAT) { if (r == SR_UNKNOWN) { incompleteL++; cutL["solver-unknown"]++; } else cutL["assume"]++; endPath(); }
    setWit(w); addPC(c);
}
static E* newSym(unsigned w, const str_t& name, u64 init = 0) {
    u32 ix = nsym++; if (g_syms.size() <= ix) g_syms.resize(ix + 1); g_syms[ix] = Sym{name, (u8)w, nullptr}; if (g_wit.size() <= ix) g_wit.resize(ix + 1); if (dom.size() <= ix) dom.resize(ix + 1);
    memset(&dom[ix], 0xff, sizeof(Dom)); multi[(ix & 127) >> 6] &= ix < 128 ? ~(1ull << (ix & 63)) : ~0ull; g_wit[ix] = init; g_evStamp++;
    return mkSym(ix, w);
}
static void bi_sym(Ins& I, CallT& c) {
    u64 p = ARGC(0), n = ARGC(1); str_t nm = cstr(ARG(2)); u64 off; Obj* o = resolve(VC(p), n, true, off, nullptr, nullptr);
    logBlock(o, off, n); 
    if (replay) { if (rpos >= rin.size() || rin[rpos].v.size() != n) { fprintf(stderr, "replay mismatch at %s\n", nm.c_str()); cutPath("replay-mismatch"); } for (u64 i = 0; i < n; i++) { o->data[off + i] = (u8)rin[rpos].v[i]; if (o->sym) o->sym[off + i] = nullptr; } rpos++; NEXT(); return; }
    ensureSym(o); u32 first = nsym; for (u64 i = 0; i < n; i++) o->sym[off + i] = newSym(8, nm + "[" + std::to_string(i) + "]");
    inlog.push_back(Input{nm, first, (u32)n, 8, 0}); NEXT();
}
static void bi_int(Ins& I, CallT& c) {
    u64 lo = ARGC(0), hi = ARGC(1); str_t nm = cstr(ARG(2)); 
    if (replay) { if (rpos >= rin.size()) cutPath("replay-mismatch"); setDst(I, VC(rin[rpos++].v.at(0))); NEXT(); return; }
    unsigned w = hi < 256 ? 8 : hi < 65536 ? 16 : hi < (1ull << 32) ? 32 : 64; u32 first = nsym; E* s = newSym(w, nm, lo); inlog.push_back(Input{nm, first, 1, (u8)w, 0});
    if (lo) addPC(mkBin(X_ULE, mkConst(lo, w), s)); if (hi < mask64(w)) addPC(mkBin(X_ULE, s, mkConst(hi, w)));
    if (isC(pcs.empty() ? s : pcs.back())) pcs.pop_back();
    setDst(I, fromE(mkZext(s, 64))); NEXT();
}
static void bi_assume(Ins& I, CallT& c) { Val v = ARG(0); E* e = toE(v, c.args[0].w); assume(e->w == 1 ? e : mkNot(mkBin(X_EQ, e, mkConst(0, e->w)))); NEXT(); }
static void doCheck(E* e, const str_t& msg, const str_t& kf, E* kfc) {
    if (isC(e)) {
        chkL[msg].second++; assertConc++;
        if (e->c) return;
        if (kfc && evalE(kfc)) violation("known", msg, kf); else violation("assert", msg);
        endPath();
    }
    chkL[msg].first++;
    E* neg = mkNot(e);
    if (kfc) neg = mkBin(X_AND, neg, mkNot(kfc));
    std::vector<E*> cs; slice(neg, cs); cs.push_back(neg); std::vector<u64> w = g_wit; SatRes r = solveConj(cs, &w, true);
    if (r == SR_SAT) { std::vector<u64> sv = g_wit; setWit(w); violation("assert", msg); setWit(sv); }
    else if (r == SR_UNKNOWN) { incompleteL++; cutL["solver-unknown"]++; }
    if (kfc) { E* k = mkBin(X_AND, mkNot(e), kfc); std::vector<u64> w2; if (!(isC(k) && !k->c) && feasible(k, w2) == SR_SAT) { std::vector<u64> sv = g_wit; setWit(w2); violation("known", msg, kf); setWit(sv); } }
    assume(e);
}
static E* asBool(Val v, unsigned w) { E* e = toE(v, w); return e->w == 1 ? e : mkNot(mkBin(X_EQ, e, mkConst(0, e->w))); }
static void bi_check(Ins& I, CallT& c) { doCheck(asBool(ARG(0), c.args[0].w), cstr(ARG(1)), "", nullptr); NEXT(); }
static void bi_check_kf(Ins& I, CallT& c) { doCheck(asBool(ARG(0), c.args[0].w), cstr(ARG(1)), cstr(ARG(3)), asBool(ARG(2), c.args[2].w)); NEXT(); }
static void bi_cover(Ins& I, CallT& c) { covL[cstr(ARG(0))]++; NEXT(); }
static void bi_cut(Ins& I, CallT& c) { cutPath("harness:" + cstr(ARG(0))); }
static void bi_conc(Ins& I, CallT& c) { setDst(I, VC(ARGC(0))); NEXT(); }
static void bi_obs(Ins& I, CallT& c) { Val v = ARG(0); obs.push_back(Ob{v.c, v.e}); NEXT(); }
static void bi_malloc(Ins& I, CallT& c) { u64 n = ARGC(0); if (n > (1ull << 28)) { setDst(I, VC(0)); NEXT(); return; } Obj* o = newObj(n, K_HEAP, cur->fn->name.c_str()); setDst(I, VC(o->base)); NEXT(); }
static void bi_calloc(Ins& I, CallT& c) { u64 n = ARGC(0) * ARGC(1); if (n > (1ull << 28)) { setDst(I, VC(0)); NEXT(); return; } Obj* o = newObj(n, K_HEAP, cur->fn->name.c_str()); memset(o->data, 0, n); setDst(I, VC(o->base)); NEXT(); }
static Obj* heapObj(u64 p, const char* what) { Obj* o = findObj(p); if (!o || o->base != p || o->kind != K_HEAP) memError(str_t("invalid pointer passed to ") + what); if (!o->alive) memError(str_t("double free: ") + what); return o; }
static void bi_free(Ins& I, CallT& c) { u64 p = ARGC(0); if (p) setAlive(heapObj(p, "free"), 0); NEXT(); }
static void bi_realloc(Ins& I, CallT& c) {
    u64 p = ARGC(0), n = ARGC(1); if (n > (1ull << 28)) { setDst(I, VC(0)); NEXT(); return; } Obj* q = p ? heapObj(p, "realloc") : nullptr; Obj* o = newObj(n, K_HEAP, cur->fn->name.c_str());
    if (q) { u64 m = std::min(n, q->size); memcpy(o->data, q->data, m); if (q->sym) { ensureSym(o); memcpy(o->sym, q->sym, m * sizeof(E*)); } setAlive(q, 0); }
    setDst(I, VC(o->base)); NEXT();
}
static void bi_msize(Ins& I, CallT& c) { setDst(I, VC(heapObj(ARGC(0), "_msize")->size)); NEXT(); }
static void bi_memcpy(Ins& I, CallT& c) { u64 n = ARGC(2); copyMem(ARG(0), ARG(1), n); setDst(I, ARG(0)); NEXT(); }
static void bi_memset(Ins& I, CallT& c) { u64 n = ARGC(2); setMem(ARG(0), ARG(1), n); setDst(I, ARG(0)); NEXT(); }
static void bi_memcmp(Ins& I, CallT& c) {
    u64 n = ARGC(2); if (!n) { setDst(I, VC(0)); NEXT(); return; }
    u64 a, b; 
    Val va = VC(ARGC(0)), vb = VC(ARGC(1));
    Obj *oa = checkAddr(va.c, 1, false, nullptr), *ob = checkAddr(vb.c, 1, false, nullptr); a = va.c - oa->base; b = vb.c - ob->base;
    u64 m = std::min(n, std::min(oa->size - a, ob->size - b)); // reads stop at the first difference
    E* r = mkConst(0, 32); E* alleq = mkConst(1, 1);
    for (u64 i = m; i-- > 0;) { E *x = byteAt(oa, a + i), *y = byteAt(ob, b + i); E* d = mkBin(X_SUB, mkZext(x, 32), mkZext(y, 32)); E* eq = mkBin(X_EQ, x, y); r = mkIte(eq, r, d); alleq = mkBin(X_AND, alleq, eq); }
    if (m < n && decide(alleq)) memError("memcmp reads out of bounds");
    setDst(I, fromE(r)); NEXT();
}
static void bi_nop(Ins& I, CallT& c) { if (I.dst >= 0) cur->r[I.dst] = VC(0); NEXT(); }
static void bi_exit(Ins& I, CallT& c) { cutPath("exit"); }
static void bi_abort(Ins& I, CallT& c) { violation("abort", "abort called: " + c.fn->name); endPath(); }
static void bi_trap(Ins& I, CallT& c) { memError("trap executed"); }
static void bi_vastart(Ins& I, CallT& c) { storeVal(ARG(0), VC(cur->va), 64, nullptr); NEXT(); }
static void bi_vacopy(Ins& I, CallT& c) { Val v = loadVal(ARG(1), 64, nullptr); storeVal(ARG(0), v, 64, nullptr); NEXT(); }
static unsigned retW(Ins& I) { return I.w; }
template <int K> static void bi_minmax(Ins& I, CallT& c) {
    unsigned nv = I.n ? I.n : 1;
    for (unsigned k = 0; k < nv; k++) {
        unsigned w = c.args[0].w; Val a = R(off_(c.args[0].base, k)), b = R(off_(c.args[1].base, k));
        Val lt = icmp(K < 2 ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT, a, b, w); Val x = (K & 1) ? b : a, y = (K & 1) ? a : b;
        cur->r[I.dst + k] = lt.e ? fromE(mkIte(lt.e, toE(x, w), toE(y, w))) : lt.c ? x : y;
    }
    NEXT();
}
static void bi_abs(Ins& I, CallT& c) { unsigned w = c.args[0].w; Val a = ARG(0); E* e = toE(a, w); setDst(I, fromE(mkIte(mkBin(X_SLT, e, mkConst(0, w)), mkBin(X_SUB, mkConst(0, w), e), e))); NEXT(); }
template <int K> static void bi_ovf(Ins& I, CallT& c) { // 0 uadd 1 usub 2 umul 3 sadd 4 ssub 5 smul
    unsigned w = c.args[0].w; E *a = toE(ARG(0), w), *b = toE(ARG(1), w); EOp op = K % 3 == 0 ? X_ADD : K % 3 == 1 ? X_SUB : X_MUL; unsigned W = std::min(128u, K % 3 == 2 ? 2 * w : w + 1);
    E* r = mkBin(op, a, b); E *x = K < 3 ? mkZext(a, W) : mkSext(a, W), *y = K < 3 ? mkZext(b, W) : mkSext(b, W); E* rr = mkBin(op, x, y); E* o = mkNot(mkBin(X_EQ, rr, K < 3 ? mkZext(r, W) : mkSext(r, W)));
    cur->r[I.dst] = fromE(r); cur->r[I.dst + 1] = fromE(o); NEXT();
}
template <int K> static void bi_sat(Ins& I, CallT& c) { unsigned w = c.args[0].w; E *a = toE(ARG(0), w), *b = toE(ARG(1), w); E* r = K == 0 ? mkIte(mkBin(X_ULT, mkBin(X_ADD, a, b), a), mkConst(~(u128)0, w), mkBin(X_ADD, a, b)) : mkIte(mkBin(X_ULT, a, b), mkConst(0, w), mkBin(X_SUB, a, b)); setDst(I, fromE(r)); NEXT(); }
static void bi_first(Ins& I, CallT& c) { for (int k = 0; k < I.n; k++) cur->r[I.dst + k] = R(off_(c.args[0].base, k)); NEXT(); }
static void bi_loadrel(Ins& I, CallT& c) { u64 p = ARGC(0); Val v = loadVal(binop(X_ADD, VC(p), ARG(1), 64), 32, nullptr); u64 o = v.e ? concretize(v.e) : v.c; setDst(I, VC(p + (u64)(s64)(int)(u32)o)); NEXT(); }
static void bi_bits(Ins& I, CallT& c) {
    unsigned w = c.args[0].w; str_t n = c.fn->name; 
    if (n.find("bitreverse") != str_t::npos) { E* e = toE(ARG(0), w); E* r = mkExtract(e, 0, 1); for (unsigned i = 1; i < w; i++) r = mkConcat(r, mkExtract(e, i, 1)); setDst(I, fromE(r)); NEXT(); return; }
    if (n.find("bswap") != str_t::npos) { E* e = toE(ARG(0), w); E* r = mkExtract(e, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(e, i, 8)); setDst(I, fromE(r)); NEXT(); return; }
    Val v = ARG(0); if (!v.e) { u64 x = v.c & mask64(w), r = 0; if (n.find("ctpop") != str_t::npos) r = __builtin_popcountll(x); else if (n.find("ctlz") != str_t::npos) { r = 0; for (int i = w - 1; i >= 0 && !((x >> i) & 1); i--) r++; } else { r = 0; for (unsigned i = 0; i < w && !((x >> i) & 1); i++) r++; } setDst(I, VC(r)); NEXT(); return; }
    E* e = v.e; E* r;
    if (n.find("ctpop") != str_t::npos) { r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(X_ADD, r, mkZext(mkExtract(e, i, 1), w)); }
    else if (n.find("ctlz") != str_t::npos) { r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); }
    else { r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); }
    setDst(I, fromE(r)); NEXT();
}
template <int K> static void bi_fsh(Ins& I, CallT& c) { // funnel shift l/r
    unsigned w = c.args[0].w; if (w > 64) cutPath("unsupported:wide-fsh"); E *a = toE(ARG(0), w), *b = toE(ARG(1), w), *s = mkBin(X_UREM, toE(ARG(2), w), mkConst(w, w)); E* cc = mkConcat(a, b); E* S = mkZext(s, 2 * w);
    E* r = K == 0 ? mkExtract(mkBin(X_SHL, cc, S), w, w) : mkExtract(mkBin(X_LSHR, cc, S), 0, w); setDst(I, fromE(r)); NEXT();
}
template <double (*F)(double)> static void bi_f1(Ins& I, CallT& c) { u64 a = ARGC(0); setDst(I, VC(I.w == 64 ? fromD(F(asD(a))) : fromF((float)F(asF(a))))); NEXT(); }
static void bi_fma(Ins& I, CallT& c) { u64 a = ARGC(0), b = ARGC(1), d = ARGC(2); setDst(I, VC(I.w == 64 ? fromD(asD(a) * asD(b) + asD(d)) : fromF(asF(a) * asF(b) + asF(d)))); NEXT(); }
template <bool MX> static void bi_fmm(Ins& I, CallT& c) { u64 a = ARGC(0), b = ARGC(1); if (I.w == 64) setDst(I, VC(fromD(MX ? fmax(asD(a), asD(b)) : fmin(asD(a), asD(b))))); else setDst(I, VC(fromF(MX ? fmaxf(asF(a), asF(b)) : fminf(asF(a), asF(b))))); NEXT(); }
static void bi_objsize(Ins& I, CallT& c) { setDst(I, VC(~0ull)); NEXT(); }
static void bi_setjmp(Ins& I, CallT& c) { u64 p = ARGC(0); storeVal(VC(p), VC((u64)(uintptr_t)cur), 64, nullptr); storeVal(VC(p + 8), VC(cur->pc), 64, nullptr); storeVal(VC(p + 16), VC((u64)(uintptr_t)cur->fn), 64, nullptr); setDst(I, VC(0)); NEXT(); }
static void bi_longjmp(Ins& I, CallT& c) {
    u64 p = ARGC(0); u64 v = ARGC(1); Frame* t = (Frame*)(uintptr_t)loadVal(VC(p), 64, nullptr).c; u32 pc = (u32)loadVal(VC(p + 8), 64, nullptr).c; Fn* fn = (Fn*)(uintptr_t)loadVal(VC(p + 16), 64, nullptr).c;
    Frame* f = cur; while (f && f != t) f = f->parent; if (!f || f->fn != fn) memError("longjmp to a dead frame");
    while (cur != t) { popAllocas(cur); Frame* x = cur; cur = cur->parent; ft = x; if (cur->epoch < epochNow) saveFrame(cur); }
    Ins& J = cur->fn->code[pc]; setDst(J, VC(v ? v : 1)); cur->pc = pc + 1;
}
static void bi_print(Ins& I, CallT& c) { if (verbose || replay) { Val v = ARG(1); fprintf(stderr, "[trace] %s %lld %s\n", cstr(ARG(0)).c_str(), (long long)(v.e ? (u64)evalE(v.e) : v.c), v.e ? dumpE(v.e).c_str() : ""); } NEXT(); }
static void bi_prints(Ins& I, CallT& c) { if (verbose || replay) { u64 p = ARGC(1), w = ARGC(2); fprintf(stderr, "[trace] %s \"", cstr(ARG(0)).c_str()); if (p) for (int k = 0; k < 200; k++) { Obj* o = findObj(p); if (!o || p - o->base >= o->size) { fprintf(stderr, "<oob>"); break; } Val v = loadAt(o, p - o->base, w * 8); u64 x = v.e ? (u64)evalE(v.e) : v.c; if (!x) break; if (x >= 32 && x < 127) fputc((int)x, stderr); else fprintf(stderr, "\\x%llx", (unsigned long long)x); p += w; } fprintf(stderr, "\"\n"); } NEXT(); }
static void bi_issym(Ins& I, CallT& c) { setDst(I, VC(0)); NEXT(); }
static void bi_false(Ins& I, CallT& c) { setDst(I, VC(0)); NEXT(); }
static void bi_symbolic(Ins& I, CallT& c) { setDst(I, VC(1)); NEXT(); }

static std::map<str_t, Builtin>& builtins() {
    static std::map<str_t, Builtin> b;
    if (b.empty()) {
        b["sx_sym"] = bi_sym; b["sx_int"] = bi_int; b["sx_assume"] = bi_assume; b["sx_check"] = bi_check; b["sx_check_kf"] = bi_check_kf; b["sx_cover"] = bi_cover; b["sx_cut"] = bi_cut; b["sx_conc"] = bi_conc; b["sx_obs"] = bi_obs; b["sx_trace"] = bi_print; b["sx_traces"] = bi_prints; b["sx_engine"] = bi_symbolic;
        for (auto n : {"malloc", "_Znwy", "_Znay", "_ZnwyRKSt9nothrow_t", "_ZnayRKSt9nothrow_t", "_malloc_base"}) b[n] = bi_malloc;
        for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvy", "_ZdaPvy", "_ZdlPvRKSt9nothrow_t"}) b[n] = bi_free;
        b["calloc"] = bi_calloc; b["realloc"] = bi_realloc; b["_msize"] = bi_msize;
        b["memcpy"] = b["memmove"] = bi_memcpy; b["memset"] = bi_memset; b["memcmp"] = bi_memcmp;
        for (auto n : {"llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.p0.p0.i32", "llvm.memmove.p0.p0.i32", "llvm.memcpy.inline.p0.p0.i64"}) b[n] = bi_memcpy;
        b["llvm.memset.p0.i64"] = b["llvm.memset.p0.i32"] = bi_memset;
        b["atexit"] = b["__cxa_atexit"] = b["_onexit"] = b["__mingw_raise_fp"] = bi_nop; b["__cxa_guard_abort"] = bi_nop;
        b["exit"] = b["_exit"] = b["ExitProcess"] = bi_exit; b["abort"] = b["_ZSt9terminatev"] = bi_abort; for (auto n : {"_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt25__throw_bad_function_callv", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_out_of_rangePKc", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_system_errori"}) b[n] = bi_abort;
        b["llvm.trap"] = b["llvm.debugtrap"] = bi_trap; b["llvm.va_start"] = bi_vastart; b["llvm.va_end"] = bi_nop; b["llvm.va_copy"] = bi_vacopy; b["llvm.stackrestore"] = b["llvm.stackrestore.p0"] = b["llvm.stacksave"] = b["llvm.stacksave.p0"] = b["llvm.prefetch.p0"] = bi_nop;
        for (unsigned w = 1; w <= 128; w++) { str_t s = ".i" + std::to_string(w); b["llvm.umin" + s] = bi_minmax<0>; b["llvm.umax" + s] = bi_minmax<1>; b["llvm.smin" + s] = bi_minmax<2>; b["llvm.smax" + s] = bi_minmax<3>; b["llvm.abs" + s] = bi_abs;
            b["llvm.uadd.with.overflow" + s] = bi_ovf<0>; b["llvm.usub.with.overflow" + s] = bi_ovf<1>; b["llvm.umul.with.overflow" + s] = bi_ovf<2>; b["llvm.sadd.with.overflow" + s] = bi_ovf<3>; b["llvm.ssub.with.overflow" + s] = bi_ovf<4>; b["llvm.smul.with.overflow" + s] = bi_ovf<5>;
            b["llvm.uadd.sat" + s] = bi_sat<0>; b["llvm.usub.sat" + s] = bi_sat<1>; b["llvm.expect" + s] = bi_first; b["llvm.ctpop" + s] = b["llvm.ctlz" + s] = b["llvm.cttz" + s] = b["llvm.bswap" + s] = b["llvm.bitreverse" + s] = bi_bits; b["llvm.fshl" + s] = bi_fsh<0>; b["llvm.fshr" + s] = bi_fsh<1>; b["llvm.is.constant" + s] = bi_false; b["llvm.objectsize" + s + ".p0"] = bi_objsize; }
        b["llvm.load.relative.i64"] = b["llvm.load.relative.i32"] = bi_loadrel; b["llvm.threadlocal.address.p0"] = b["llvm.launder.invariant.group.p0"] = b["llvm.strip.invariant.group.p0"] = bi_first;
        for (auto s : {".f64", ".f32"}) { b[str_t("llvm.fabs") + s] = bi_f1<fabs>; b[str_t("llvm.floor") + s] = bi_f1<floor>; b[str_t("llvm.ceil") + s] = bi_f1<ceil>; b[str_t("llvm.trunc") + s] = bi_f1<trunc>; b[str_t("llvm.round") + s] = bi_f1<round>; b[str_t("llvm.sqrt") + s] = bi_f1<sqrt>; b[str_t("llvm.fmuladd") + s] = bi_fma; b[str_t("llvm.maxnum") + s] = bi_fmm<true>; b[str_t("llvm.minnum") + s] = bi_fmm<false>; }
        b["floor"] = bi_f1<floor>; b["ceil"] = bi_f1<ceil>; b["fabs"] = bi_f1<fabs>; b["sqrt"] = bi_f1<sqrt>; b["round"] = bi_f1<round>;
        for (auto n : {"_setjmp", "setjmp", "_setjmpex", "__intrinsic_setjmp", "__intrinsic_setjmpex", "__mingw_setjmp"}) b[n] = bi_setjmp; b["longjmp"] = b["__mingw_longjmp"] = bi_longjmp;
    }
    return b;
}

// ---------------------------------------------------------------- driver
static void sample() {
    if (obs.empty() || replay) return;
    static u64 rng = 0; if (!rng) rng = seed * 0x9e3779b97f4a7c15ull + getpid() * 7919; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    static int mine = 0; if (mine >= 40) return; if (mine >= 3 && rng % 64) return; mine++; if (sh->samples++ >= 400) return;
    char fn[64]; snprintf(fn, 64, "/samples_%d.jsonl", (int)getpid()); FILE* f = fopen((outDir + fn).c_str(), "a"); if (!f) return;
    str_t o = "["; for (size_t i = 0; i < obs.size(); i++) { if (i) o += ","; o += std::to_string(obs[i].e ? (u64)evalE(obs[i].e) : obs[i].c); } o += "]";
    fprintf(f, "{\"inputs\":%s,\"obs\":%s}\n", inputsJson().c_str(), o.c_str()); fclose(f);
}
static void runLoop() {
    for (;;) {
        try { interp(); }
        catch (PathEnd&) {
            if (!cur) { if (!isChild || true) sample(); }
            if (sh->stop) { if (!cps.empty()) incompleteL++; break; }
            if (!backtrack()) break;
        }
        catch (int k) {
            if (k == 1) continue;
            if (k == 2) { incompleteL++; break; }
            if (k == 3) { incompleteL++; cutL["limit:time"]++; break; }
        }
    }
}
static std::vector<RIn> parseReplay(const str_t& fn) { // lines: name n v...
    std::vector<RIn> r; FILE* f = fopen(fn.c_str(), "r"); if (!f) { perror("replay"); exit(3); } char nm[256]; unsigned n;
    while (fscanf(f, "%255s %u", nm, &n) == 2) { RIn x; x.name = nm; for (unsigned i = 0; i < n; i++) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) break; x.v.push_back(v); } r.push_back(x); }
    fclose(f); return r;
}
int main(int argc, char** argv) {
    str_t bc, entry = "harness_main", rf; double tlimit = 100; int jobs = 8; unsigned rlimit = 100000000; u64 memMB = 3500; str_t dumpq;
    for (int i = 1; i < argc; i++) { str_t a = argv[i];
        if (a == "--entry") entry = argv[++i]; else if (a == "--out") outDir = argv[++i]; else if (a == "--time") tlimit = atof(argv[++i]); else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--keep-going") keepGoing = true; else if (a == "--seed") seed = atoll(argv[++i]); else if (a == "--replay") { replay = true; rf = argv[++i]; } else if (a == "--rlimit") rlimit = atol(argv[++i]); else if (a == "--max-steps") maxPathSteps = atoll(argv[++i]); else if (a == "--max-depth") maxDepth = atoi(argv[++i]); else if (a == "-v") verbose++; else bc = a; }
    // big native stack for recursive expression walks
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 29) && !getenv("SYMX_STK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 29) : std::min<rlim_t>(rl.rlim_max, 1ull << 29); setrlimit(RLIMIT_STACK, &rl); setenv("SYMX_STK", "1", 1); execv("/proc/self/exe", argv); }
    { struct rlimit ml; ml.rlim_cur = ml.rlim_max = memMB << 20; (void)ml; }
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)sh, 0, sizeof *sh); sh->idle = jobs - 1; if (jobs <= 1) noFork = true;
    SMDiagnostic err; auto mod = parseIRFile(bc, err, LC); if (!mod) { err.print("symx", errs()); return 3; }
    M = mod.get(); DL = &M->getDataLayout(); tStart = now(); sh->deadline = tStart + tlimit; lastFork = tStart;
    frameArena = (char*)mmap(0, 1ull << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ft = (Frame*)frameArena;
    for (auto& F : *M) { Fn* f = getFn(&F); if (!f->ext) { f->gidBase = nHit; for (auto& bb : F) nHit += bb.size(); } }
    shHit = (u8*)mmap(0, nHit + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_wit.reserve(256); solverInit(rlimit);
    std::vector<std::pair<GlobalVariable*, Obj*>> gl;
    for (auto& g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; u64 sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 8; Obj* o = newObj(sz, K_GLOBAL, strdup(g.getName().str().c_str()), g.getAlign() ? g.getAlign()->value() : 16); gAddr[&g] = o->base; gl.push_back({&g, o}); }
    for (auto& p : gl) { if (p.first->hasInitializer()) initMem(p.second->data, p.first->getInitializer()); }
    for (auto& p : gl) if (p.first->isConstant() && p.first->hasInitializer()) p.second->ro = 1;
    if (replay) { rin = parseReplay(rf); noFork = true; keepGoing = true; }
    // constructors, then the entry point, as one frame chain via a driver list
    std::vector<Fn*> seq;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) { std::vector<std::pair<u64, Function*>> l; if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) l.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); } std::stable_sort(l.begin(), l.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : l) seq.push_back(getFn(p.second)); }
    Function* EF = M->getFunction(entry); if (!EF) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    bool ctorOk = true;
    for (auto* f : seq) { cur = nullptr; try { cur = pushFrame(f, -1); interp(); } catch (PathEnd&) { if (cur) { ctorOk = false; fprintf(stderr, "constructor %s did not finish\n", f->name.c_str()); } ft = (Frame*)frameArena; cur = nullptr; } catch (int) { ctorOk = false; } }
    pathSteps = 0;
    if (!ctorOk) { for (auto& p : cutL) fprintf(stderr, "cut %s %llu\n", p.first.c_str(), (unsigned long long)p.second); }
    cur = nullptr; cur = pushFrame(getFn(EF), -1);
    if (ctorOk) runLoop();
    sh->nexpr += exprCount(); flushStats(); 
    if (isChild) { sh->idle++; reap(true); _exit(0); }
    // the parent's slot is free while it waits
    sh->idle++; reap(true);
    while (!kids.empty()) reap(true);
    // report
    FILE* f = stdout; double el = now() - tStart;
    fprintf(f, "{\"ctor_ok\":%d,\"complete\":%d,\"paths\":%llu,\"steps\":%llu,\"wall\":%.3f,\"solver_queries\":%llu,\"cache_hits\":%llu,\"domain_decisions\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"assert_queries\":%llu,\"assert_concrete\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"forks\":%llu,\"crashed\":%llu,\"violations\":%llu,\"incomplete\":%llu,\"nexpr\":%llu",
        ctorOk, ctorOk && !sh->incomplete && !sh->crashed && !sh->unknown, (unsigned long long)sh->paths, (unsigned long long)sh->steps, el, (unsigned long long)sh->queries, (unsigned long long)sh->cacheHits, (unsigned long long)sh->forksCP, (unsigned long long)sh->sat, (unsigned long long)sh->unsat, (unsigned long long)sh->unknown, (unsigned long long)sh->assertQ, (unsigned long long)sh->assertConc, sh->solverUs / 1e6, sh->maxUs / 1e6, (unsigned long long)sh->forks, (unsigned long long)sh->crashed, (unsigned long long)sh->viol, (unsigned long long)sh->incomplete, (unsigned long long)sh->nexpr);
    fprintf(f, ",\"cuts\":{"); for (int i = 0; i < sh->ncut; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", jesc(sh->cut[i].r).c_str(), (unsigned long long)sh->cut[i].n); fprintf(f, "}");
    fprintf(f, ",\"covers\":{"); for (int i = 0; i < sh->ncov; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", jesc(sh->cov[i].r).c_str(), (unsigned long long)sh->cov[i].n); fprintf(f, "}");
    fprintf(f, ",\"checks\":{"); for (int i = 0; i < sh->nchk; i++) fprintf(f, "%s\"%s\":{\"symbolic\":%llu,\"concrete\":%llu}", i ? "," : "", jesc(sh->chk[i].r).c_str(), (unsigned long long)sh->chk[i].sym, (unsigned long long)sh->chk[i].conc); fprintf(f, "}");
    fprintf(f, ",\"functions\":["); bool first = true; 
    for (auto& F : *M) { auto it = fnMap.find(&F); if (it == fnMap.end() || F.isDeclaration()) continue; u32 g = it->second->gidBase, hits = 0, tot = 0; std::set<unsigned> lt, lh; for (auto& bb : F) for (auto& I : bb) { if (!isa<PHINode>(I)) { tot++; if (shHit[g]) hits++; if (I.getDebugLoc()) { lt.insert(I.getDebugLoc()->getLine()); if (shHit[g]) lh.insert(I.getDebugLoc()->getLine()); } } g++; }
        if (!hits) continue; DISubprogram* sp = F.getSubprogram(); str_t file = sp ? sp->getFilename().str() : ""; str_t dir = sp && sp->getDirectory().size() && file.size() && file[0] != '/' ? sp->getDirectory().str() + "/" : "";
        fprintf(f, "%s{\"name\":\"%s\",\"file\":\"%s\",\"ins\":%u,\"hit\":%u}", first ? "" : ",", jesc(demang(F.getName().str())).c_str(), jesc(dir + file).c_str(), tot, hits); first = false; }
    fprintf(f, "]}\n"); fflush(f);
    return sh->viol ? 1 : 0;
}
