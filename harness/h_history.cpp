// The history database: several sessions, their master file, removals, compaction, crashes; against lists of lines.
#include "hx.h"
#include <stdio.h>
#include <vector>
#include <map>
#define private public
#define protected public
#include "lib/history_db.h"
#undef private
#undef protected
#include "core/settings.h"
extern "C" {
#include <readline/history.h>
}
#ifndef H_ONE
#define H_ONE 0
#endif
#ifndef H_LIMIT
#define H_LIMIT 0
#endif
#ifndef H_THRESHOLD
#define H_THRESHOLD 200
#endif
enum { NS = 3, ML = 40, LL = 4 };
struct Entry { char t[LL]; int dead, rem, opt; unsigned ts; int uid; };
extern "C" int sx_writes_left;
static Entry m_m[ML]; static int m_n; static Entry m_s[NS][ML]; static int m_sn[NS];
static int m_gen, m_uid; static history_db* db[NS]; static int orphan[NS];
static struct { int uid, bank, gen; } m_idx[NS][ML]; static int m_in[NS]; static int m_igen[NS];     // the entries as of the last load
static const int SH = H_SHARED, DUPE = H_DUPE;
static int m_ts = H_TS;
static int defer() { return !SH && DUPE == 2; }
static int visible(int s, Entry** o) { int k = 0; for (int i = 0; i < m_n; i++) if (!m_m[i].dead && !(m_m[i].rem >> s & 1)) o[k++] = &m_m[i]; for (int i = 0; i < m_sn[s]; i++) if (!m_s[s][i].dead) o[k++] = &m_s[s][i]; return k; }
static void fold(int s) {
    for (int i = 0; i < m_sn[s]; i++) { if (m_n >= ML) sx_cut("too many lines"); m_m[m_n++] = m_s[s][i]; m_m[m_n - 1].rem = 0; }
    m_sn[s] = 0; for (int i = 0; i < m_n; i++) if (m_m[i].rem >> s & 1) { m_m[i].dead = 1; m_m[i].rem &= ~(1 << s); }
    orphan[s] = 0;
}
static void reap() { for (int s = 0; s < NS; s++) if (orphan[s]) fold(s); }
static void s_open(int s) { db[s] = new history_db("hist", s + 1, true); db[s]->m_min_compact_threshold = H_THRESHOLD; db[s]->initialise(); orphan[s] = 0; if (!SH) reap(); m_in[s] = 0; m_igen[s] = m_gen; }
static void s_close(int s) { delete db[s]; db[s] = 0; if (!SH) orphan[s] = 1; reap(); }
static void s_kill(int s) { CloseHandle(db[s]->m_alive_file); db[s]->m_alive_file = 0; for (int b = 0; b < bank_count; b++) db[s]->m_bank_handles[b].close(); db[s] = 0; if (!SH) orphan[s] = 1; }      // what the system does when the process dies
static void not_torn(Entry** v, int n, const char* t) { for (int i = 0; i < n; i++) sx_assume(!v[i]->opt || !hx_eqn(v[i]->t, t, 1)); }      // what is left of an interrupted line is its own affair
static void s_add(int s, const char* t) {
    Entry* v[ML * 2]; int n = visible(s, v); not_torn(v, n, t); time_t when = 0; bool r = db[s]->add(t, &when); int ok = *t && *t != ' ' && *t != '\t'; sx_check(r == !!ok, "whether a line is added"); if (!ok) return;
    int found = 0; for (int i = 0; i < n; i++) if (hx_eq(v[i]->t, t)) { found = 1; if (DUPE == 2) { int mas = v[i] >= m_m && v[i] < m_m + ML; if (mas && defer()) v[i]->rem |= 1 << s; else v[i]->dead = 1; } }
    if (DUPE == 1 && found) return;
    Entry e = {}; int k = 0; do e.t[k] = t[k]; while (t[k++]); e.ts = m_ts ? (unsigned)when : 0; e.uid = ++m_uid; if (SH) m_m[m_n++] = e; else m_s[s][m_sn[s]++] = e;
}
static void s_torn(int s, const char* t) {     // the process dies after some of the writes that add a line
    { Entry* v[ML * 2]; int n = visible(s, v); for (int i = 0; i < n; i++) sx_assume(!hx_eq(v[i]->t, t)); }
    int b = sx_pick(5, "writes"); sx_writes_left = b; s_add(s, t); bool cut = sx_writes_left == 0; sx_writes_left = -1; s_kill(s); 
    Entry* e = SH ? &m_m[m_n - 1] : &m_s[s][m_sn[s] - 1]; if (cut && *e->t) { e->opt = 1; sx_cover("torn"); } else sx_cover("whole");
}
static void mark(int s, int uid) { for (int i = 0; i < m_n; i++) if (m_m[i].uid == uid) { if (defer()) m_m[i].rem |= 1 << s; else m_m[i].dead = 1; } for (int i = 0; i < m_sn[s]; i++) if (m_s[s][i].uid == uid) m_s[s][i].dead = 1; }
static void s_remove(int s, const char* t) { Entry* v[ML * 2]; int n = visible(s, v), k = 0; not_torn(v, n, t); for (int i = 0; i < n; i++) if (hx_eq(v[i]->t, t)) { mark(s, v[i]->uid); k++; } int r = db[s]->remove(t); sx_check(r == k, "how many lines are removed"); }
static int same(str_iter& l, const char* t, int pre) { int n = hx_slen(t), k = (int)l.length(); return (pre ? k <= n && k > 0 : k == n) && hx_eqn(l.get_pointer(), t, k < n ? k : n); }
static int with_opt(int s, int want) {      // the view matches, when a line that was being written is there (perhaps cut off) or not
    Entry* v[ML * 2]; int n = visible(s, v), k = 0, ok = 1; static char buf[64000]; str_iter l; auto it = db[s]->read_lines(buf);
    while (it.next(l)) { while (k < n && v[k]->opt && !want) k++; if (k >= n) return 0; ok &= same(l, v[k]->t, v[k]->opt); k++; }
    while (k < n && v[k]->opt && !want) k++; return ok && k == n;
}
static void s_view(int s) {
#ifdef H_TORN
    sx_check(with_opt(s, 0) | with_opt(s, 1), "an interrupted write damaged other lines"); return;
#endif
    Entry* v[ML * 2]; int n = visible(s, v), k = 0; static char buf[64000]; str_iter l; str<> ts;
    auto it = db[s]->read_lines(buf); while (it.next(l, &ts)) {
        sx_check(k < n, "a line that should be gone is still there"); if (k >= n) break;
        int len = hx_slen(v[k]->t); sx_check((int)l.length() == len && hx_eqn(l.get_pointer(), v[k]->t, len), "a line is wrong");
        if (v[k]->ts) { str<> w; w.format("%u", v[k]->ts); sx_check(hx_eq(ts.c_str(), w.c_str()), "time of a line"); } else sx_check(ts.empty(), "a line without a time has one");
        k++;
    }
    sx_check(k == n, "a line is lost"); sx_obs(k);
}
static void s_load(int s, bool clean) {
    if (clean && H_LIMIT) {     // trims to the limit, maybe compacts
        int ml = 0, del = 0; for (int i = 0; i < m_n; i++) if (m_m[i].dead || m_m[i].rem >> s & 1) del++; else ml++;
        for (int i = 0; i < m_n && ml > H_LIMIT; i++) if (!m_m[i].dead && !(m_m[i].rem >> s & 1)) { mark(s, m_m[i].uid); ml--; del++; }
        db[s]->load_rl_history(true);
        if (del > (H_LIMIT > H_THRESHOLD ? H_LIMIT : H_THRESHOLD)) {
            int live = 0, k = 0; for (int i = 0; i < m_n; i++) live += !m_m[i].dead; Entry o[ML];
            for (int i = 0; i < m_n; i++) if (!m_m[i].dead && live-- <= H_LIMIT) o[k++] = m_m[i];
            for (int i = 0; i < k; i++) m_m[i] = o[i]; m_n = k; m_gen++; sx_cover("compacted by loading");
        }
    } else db[s]->load_rl_history(clean);
    Entry* v[ML * 2]; int n = visible(s, v); HIST_ENTRY** h = history_list(); int k = 0; if (h) while (h[k]) { sx_check(k < n && hx_eq(h[k]->line, v[k]->t), "a loaded line is wrong"); if (k >= n) break; k++; } sx_check(k == n, "a line isn't loaded");
    m_in[s] = 0; m_igen[s] = m_gen; for (int i = 0; i < n; i++) { m_idx[s][i].uid = v[i]->uid; m_idx[s][i].bank = v[i] >= m_m && v[i] < m_m + ML ? 0 : 1; } m_in[s] = n;
}
static void s_remove_at(int s, int i) {      // by the number it had when last loaded
    sx_assume(m_in[s] >= 0);
    int ok = 1; if (i < m_in[s]) { if (m_idx[s][i].bank == 0 && m_igen[s] != m_gen) ok = 0; else { mark(s, m_idx[s][i].uid); for (int j = i; j + 1 < m_in[s]; j++) m_idx[s][j] = m_idx[s][j + 1]; m_in[s]--; } }
    bool r = db[s]->remove(i, ""); sx_check(r == !!ok, "whether a numbered line is removed");
}
static void s_clear(int s) { db[s]->clear(); m_n = 0; m_sn[s] = 0; m_gen++; m_in[s] = 0; m_igen[s] = m_gen; }
static void s_compact(int s, bool uniq, int limit) {
    db[s]->load_rl_history(false); m_igen[s] = m_gen; m_in[s] = 0;      // as 'clink history compact' does
    db[s]->compact(true, uniq, limit); Entry o[ML]; int k = 0, live = 0; char keep[ML];
    for (int i = 0; i < m_n; i++) { keep[i] = !m_m[i].dead; if (uniq) for (int j = i + 1; j < m_n; j++) if (!m_m[j].dead && hx_eq(m_m[i].t, m_m[j].t)) keep[i] = 0; live += keep[i]; }
    if (limit < 0) limit = H_LIMIT;
    for (int i = 0; i < m_n; i++) if (keep[i]) { if (!limit || live <= limit) o[k++] = m_m[i]; live--; }
    for (int i = 0; i < k; i++) m_m[i] = o[i]; m_n = k; m_gen++; m_in[s] = -1;      // numbers are only used after loading again
}
static char* line(int i) { char* t = (char*)malloc(LL); sx_sym(t, 1, "c"); 
#ifdef H_ALPHA
    { int ok = 0; for (const char* a = H_ALPHA; *a; a++) ok |= t[0] == *a; sx_assume(ok); }
#else
    sx_assume(t[0] != 0 && t[0] != '\n' && t[0] != '\r' && t[0] != '|' && t[0] != '\t' && t[0] != ' ');
#endif
    int k = 1; 
#ifndef H_PLAIN
    if (i & 1) t[k++] = 'x';
#endif
    t[k] = 0; return t; }
static void set(const char* n, const char* v) { setting* s = settings::find(n); sx_check(s != 0, "setting"); s->set(v); }
extern "C" void harness_main() {
    char b[4] = "0"; set("history.shared", SH ? "1" : "0"); b[0] = '0' + DUPE; set("history.dupe_mode", b); set("history.time_stamp", m_ts ? "1" : "0"); str<> lim; lim.format("%d", H_LIMIT); set("history.max_lines", lim.c_str());
    static const char OPS[] = H_OPS; int nops = (int)sizeof(OPS) - 1;
    s_open(0); 
#ifdef H_BIG      // a removed line that ends shortly before the size of the buffer the file is read with
    { int end = 64000 - H_BIG + sx_pick(H_BIG + 2, "room"); HANDLE h = CreateFileW(L"hist", GENERIC_READ | GENERIC_WRITE, FILE_SHARE_READ | FILE_SHARE_WRITE, 0, OPEN_EXISTING, 0, 0); int n = end - (int)SetFilePointer(h, 0, 0, FILE_END); char* f = (char*)malloc(n); memset(f, 'z', n); for (int j = 0; j < 4; j++) f[n * j / 4] = '|', f[n * (j + 1) / 4 - 1] = '\n'; DWORD w; WriteFile(h, f, n, &w, 0); CloseHandle(h); free(f); }
#endif
    for (int i = 0; i < H_PRE; i++) s_add(0, line(i));
    if (H_PRE) { s_close(0); s_open(0); }
    if (!H_ONE) s_open(1);
    static const char FIX[] = H_FIX;      // fixed steps before the free ones
    for (int i = 0; i < H_K + (int)sizeof(FIX) - 1; i++) {
        int f = i < (int)sizeof(FIX) - 1 ? FIX[i] : 0; int s, op; if (f) { s = f >= 'a'; op = f & ~32; } else { op = OPS[sx_pick(nops, "op")]; s = H_ONE || op == 'P' || op == 'U' ? 0 : sx_pick(2, "s"); }
        sx_assume(db[s] || op == 'O' || op == 'T' || op == 'W');
        if (op == 'A') { s_add(s, line(i)); sx_cover("add"); }
        else if (op == 'R') { s_remove(s, line(i)); sx_cover("remove"); }
        else if (op == 'L') { s_load(s, H_LIMIT != 0); sx_cover("load"); }
        else if (op == 'N') { s_remove_at(s, f ? 0 : sx_pick(3, "i")); sx_cover("remove numbered"); }
        else if (op == 'C') { s_clear(s); sx_cover("clear"); }
        else if (op == 'P') { s_compact(s, false, f ? 0 : sx_pick(3, "limit")); sx_cover("compact"); }
        else if (op == 'U') { s_compact(s, true, f ? 0 : sx_pick(3, "limit")); sx_cover("uniq"); }
        else if (op == 'Q') { s_close(s); sx_cover("close"); }
        else if (op == 'K') { s_kill(s); sx_cover("kill"); }
        else if (op == 'X') { s_torn(s, line(i)); }
        else if (op == 'W') { HANDLE h = CreateFileW(L"hist", GENERIC_READ | GENERIC_WRITE, FILE_SHARE_READ | FILE_SHARE_WRITE, 0, OPEN_EXISTING, 0, 0); SetFilePointer(h, -1, 0, FILE_END); SetEndOfFile(h); CloseHandle(h); sx_cover("unterminated"); }     // as an editor may leave it
        else if (op == 'T') { m_ts = !m_ts; set("history.time_stamp", m_ts ? "1" : "0"); }
        else if (op == 'O') { sx_assume(!db[s]); s_open(s); sx_cover("open"); }
        if (db[s]) { s_view(s); if (op == 'A' || op == 'R') {} }
    }
#ifdef H_TORN
    for (int s = 0; s < 2; s++) if (!db[s]) s_open(s);
    for (int s = 0; s < 2; s++) { s_add(s, line(2 + s)); s_view(s); s_close(s); }
    s_open(2); s_view(2); s_close(2); return;
#endif
    char* q = line(0); for (int s = 0; s < 2; s++) if (db[s]) { s_view(s); Entry* v[ML * 2]; int n = visible(s, v), found = 0; for (int i = 0; i < n; i++) found |= hx_eq(v[i]->t, q); sx_check(!!db[s]->find(q) == !!found, "find"); s_load(s, false); }
    for (int s = 0; s < 2; s++) if (db[s]) s_close(s);
    s_open(2); s_view(2); s_close(2); sx_cover("end");
}
