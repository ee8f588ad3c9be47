// History expansion of a typed line: which event, which words, which changes; the expected text is put together next to the designators.
#include "hx.h"
#include <stdio.h>
#include <wchar.h>
#define private public
#define protected public
#include "lib/history_db.h"
#undef private
#undef protected
#include "core/settings.h"
extern "C" {
#include <readline/readline.h>
#include <readline/history.h>
size_t mbrlen(const char* s, size_t n, mbstate_t*) { unsigned char c = n ? *s : 0; if (!n) return (size_t)-2; if (c < 0x80) return c != 0; if (c < 0xc2 || c > 0xf4) return (size_t)-1; size_t k = c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; for (size_t i = 1; i < k; i++) { if (i >= n || !s[i]) return (size_t)-2; if ((s[i] & 0xc0) != 0x80) return (size_t)-1; } return k; }
}
static char in[256], ex[512]; static int ni, nx;     // typed text and what it stands for
static history_db* db;
struct Exp { int start, len; char r[64]; }; static Exp want[8]; static int nwant;
static void typed(const char* s) { while (*s) in[ni++] = *s++; in[ni] = 0; }
static void text(const char* s) { while (*s) ex[nx++] = *s++; ex[nx] = 0; }
static void both(const char* s) { typed(s); text(s); }
static const char* dig(int d) { static char b[4][8]; static int k; char* p = b[k++ & 3]; sprintf(p, "%d", d); return p; }
// r: 0 nothing to expand, 1 expanded, 2 to be shown, -1 an error
static void expand(int r) {
    str<> out; out = "untouched"; int got = db->expand(in, out); sx_check(got == r, r < 0 ? "an impossible expansion is refused" : "kind of result"); sx_obs(got + 1);
    sx_check(hx_eq(out.c_str(), r < 0 ? "untouched" : ex), "the expanded line"); hx_obs(out.c_str()); sx_cover(r < 0 ? "refused" : r == 0 ? "plain" : r == 2 ? "shown" : "expanded");
}
static char H[3][16]; static int NH;
static char* letters(char* p, int lo, int hi, const char* abc, const char* name) { int n = hx_len(lo, hi, name); char* s = hx_alpha<char>(n, abc, name); memcpy(p, s, n + 1); return p; }
static int starts(const char* l, const char* s) { while (*s) if (*l++ != *s++) return 0; return 1; }
static int has(const char* l, const char* s) { for (;; l++) { if (starts(l, s)) return 1; if (!*l) return 0; } }
#if H_MODE == 0
static void run() {
    NH = 3; for (int i = 0; i < NH; i++) { letters(H[i], 1, 2, "ab", "line"); add_history(H[i]); }
    static const char* const PRE[] = { "", "b ", "b" }; int kind = sx_pick(6, "kind"), pre = sx_pick(3, "before"); both(PRE[pre]);
    char s[8]; int e = -1;
    if (kind == 0) { typed("!!"); e = NH - 1; }
    else if (kind == 1) { int d = sx_pick(5, "number"); typed("!"); typed(dig(d)); if (d >= 1 && d <= NH) e = d - 1; }
    else if (kind == 2) { int d = sx_pick(5, "number"); typed("!-"); typed(dig(d)); if (d >= 1 && d <= NH) e = NH - d; }
    else { letters(s, 1, 2, "ab", "string"); typed(kind == 3 ? "!" : "!?"); typed(s); if (kind == 4) typed("?"); for (int i = 0; i < NH; i++) if (kind == 3 ? starts(H[i], s) : has(H[i], s)) e = i; }
    if (e >= 0) text(H[e]);
    static const char* const POST[] = { "", " b", "\tb", ";b", "b" }; if (kind != 5) both(POST[sx_pick(kind == 3 ? 3 : kind == 4 ? 5 : 4, "after")]);
    expand(e < 0 ? -1 : 1);
}
#elif H_MODE == 1
static void run() {
    static char w[64][4]; int n; char line[256] = ""; 
#ifdef H_MANY
    n = H_MANY; for (int i = 0; i < n; i++) { w[i][0] = 'a' + i % 26; w[i][1] = 0; if (i) strcat(line, " "); strcat(line, w[i]); }
    static const int NUM[] = { 0, 35, 36, 37, 38, 39 }; enum { NN = 6 };
#else
    n = 1 + sx_pick(4, "words"); for (int i = 0; i < n; i++) { letters(w[i], 1, i < 2 ? 2 : 1, "ab", "word"); if (i || sx_pick(2, "lead")) strcat(line, i == 1 ? "  " : i == 2 ? "\t" : " "); strcat(line, w[i]); }
    static const int NUM[] = { 0, 1, 2, 3, 4 }; enum { NN = 5 };
#endif
    add_history("other"); add_history(line);
    int colon = sx_pick(2, "colon"), kind = sx_pick(10, "designator"), ev = sx_pick(3, "event"); if (ev == 2 && kind != 1 && kind != 2 && kind != 3 && !colon) sx_assume(0); if (!colon && (kind == 0 || kind == 4 || kind == 6 || kind == 7 || kind == 8)) sx_assume(0);
    typed(ev == 0 ? "!!" : ev == 1 ? "!-1" : "!"); if (colon) typed(":");
    int a = 0, b = n - 1, bad = 0, open = 0;
    switch (kind) {
    case 0: a = b = NUM[sx_pick(NN, "x")]; typed(dig(a)); break;
    case 1: typed("^"); a = b = 1; break;
    case 2: typed("$"); a = b = n - 1; break;
    case 3: typed("*"); a = 1; break;
    case 4: a = NUM[sx_pick(NN, "x")]; b = NUM[sx_pick(NN, "y")]; typed(dig(a)); typed("-"); typed(dig(b)); break;
    case 5: b = NUM[sx_pick(NN, "y")]; typed("-"); typed(dig(b)); break;
    case 6: a = NUM[sx_pick(NN, "x")]; typed(dig(a)); typed("*"); break;
    case 7: a = NUM[sx_pick(NN, "x")]; b = n - 2; typed(dig(a)); typed("-"); open = a == n - 1; break;
    case 8: a = NUM[sx_pick(NN, "x")]; typed(dig(a)); typed("-$"); break;
    case 9: b = n - 2; typed("-"); open = n == 1; break;
    }
    sx_assume(!open);      // a range that leaves nothing is not described
    if (kind == 3 && n == 1) { both(" b"); expand(1); return; }
    bad = a > b || b >= n; if (!bad) for (int i = a; i <= b; i++) { if (i > a) text(" "); text(w[i]); }
    both(sx_pick(2, "after") ? " b" : ""); expand(bad ? -1 : 1);
}
#elif H_MODE == 2
// The words of a line, as a shell splits it.
static int blank(char c) { return c == ' ' || c == '\t'; } static int meta(char c) { return c && strchr(" \t;&()|<>", c) != 0; } static int digit(char c) { return c >= '0' && c <= '9'; }
static int word_end(const char* s) {
    const char* p = s; while (digit(*p)) p++; if (p == s || (*p && (*p == '<' || *p == '>'))) {
        const char* q = p;
        if (q == s && (*q == '(' || *q == ')')) return 1;
        static const char* const OPS[] = { "<<<", "<<-", "<<", ">>", ";;", "&&", "||", "&>", ">|" };
        for (int k = 0; k < 9; k++) if (starts(q, OPS[k])) return (int)(q - s) + (int)strlen(OPS[k]);
        if ((*q == '<' || *q == '>') && q[1] == '&') { q += 2; while (digit(*q)) q++; if (*q == '-') q++; return (int)(q - s); }
        if (*q && strchr("<>;&|", *q)) return (int)(q - s) + 1;
    }
    char quote = 0; for (p = s; *p && (quote || !meta(*p)); p++) { if (quote) { if (*p == quote) quote = 0; } else if (*p == '"' || *p == '\'' || *p == '`') quote = *p; }
    return (int)(p - s);
}
static void run() {
    char line[16]; letters(line, 1, H_N, H_ALPHA, "line"); sx_assume(!blank(line[0])); for (int i = 0; line[i]; i++) line[i] = (char)sx_conc((unsigned char)line[i]); add_history(line);
    int k = sx_pick(H_N, "word"); typed("!!:"); typed(dig(k)); int i = 0, n = 0, found = 0;
    while (line[i]) { while (blank(line[i])) i++; if (!line[i]) break; int e = word_end(line + i); if (n == k) { memcpy(ex, line + i, e); ex[e] = 0; found = 1; } n++; i += e; }
    expand(found ? 1 : -1);
}
#elif H_MODE == 3
static void run() {
    char line[16]; letters(line, 1, H_N, H_ALPHA, "path"); add_history(line); typed("!!"); int shown = 0;
    for (int i = 0, n = 1 + sx_pick(H_M, "modifiers"); i < n; i++) {
        int m = sx_pick(5, "modifier"); typed(m == 0 ? ":h" : m == 1 ? ":t" : m == 2 ? ":r" : m == 3 ? ":e" : ":p"); int sep = -1, dot = -1, len = (int)strlen(line);
        for (int k = 0; k < len; k++) { if (line[k] == '/' || line[k] == '\\') sep = k; if (line[k] == '.') dot = k; }
        if (m == 0) { if (sep >= 0) line[sep] = 0; } else if (m == 1) memmove(line, line + sep + 1, len - sep); else if (m == 2) { sx_assume(dot < 0 || dot > sep); if (dot >= 0) line[dot] = 0; } else if (m == 3) { sx_assume(dot > sep); memmove(line, line + dot, len - dot + 1); } else shown = 1;
    }
    text(line); both(sx_pick(2, "after") ? " b" : ""); expand(shown ? 2 : 1);
}
#elif H_MODE == 4 || H_MODE == 5
static char T[64];
// what: 0 the first one, 1 all of them, 2 once in each word; 0 when there is none
static int subst(const char* old, const char* rep, int what) {
    char o[64]; int n = 0, done = 0, in_word = 0, hit = 0; int l = (int)strlen(old);
    for (char* p = T; *p;) { if (*p == ' ' || *p == '&') in_word = 0; else if (!in_word) { in_word = 1; hit = 0; }
        if (starts(p, old) && (what == 1 || (what == 0 && !done) || (what == 2 && !hit))) { for (const char* q = rep; *q;) o[n++] = *q++; p += l; done = hit = 1; } else o[n++] = *p++; }
    o[n] = 0; strcpy(T, o); return done;
}
static void show(const char* s, char delim) { char b[2] = {}; for (; *s; s++) { if (*s == delim) typed("\\"); *b = *s; typed(b); } }
static int piece(char* old, char* rep, char d, int optional) {     // typed `/old/new/`; the replacement's `&` stands for the old text
    char dd[2] = { d, 0 }; typed(dd); letters(old, 1, H_NOLD, H_OLD, "old"); show(old, d); typed(dd); *rep = 0;
    for (int i = 0, n = hx_len(0, H_NNEW, "new"); i < n; i++) { int k = sx_pick(4, "piece"); if (k < 2) { char b[2] = { "ab"[k] }; typed(b); strcat(rep, b); } else if (k == 2) { typed("&"); strcat(rep, old); } else { typed("\\&"); strcat(rep, "&"); } }
    int last = !optional || sx_pick(2, "end"); if (last) typed(dd); return last;
}
#if H_MODE == 4
static void run() {
    char old[8], rep[32]; letters(T, 1, H_N, H_ALPHA, "line"); sx_assume(T[0] != ' '); add_history(T); int ok, what, closed;
    static const char* const W[] = { "", "g", "a", "G" }; static const int KIND[] = { 0, 1, 1, 2 };
    typed("!!:"); int w = sx_pick(4, "which"); typed(W[w]); typed("s"); what = KIND[w]; char d = "/,"[sx_pick(2, "delimiter")]; closed = piece(old, rep, d, 1); ok = subst(old, rep, what);
    int next = closed ? sx_pick(5, "next") : 0;
    if (next == 1 || next == 2 || next == 3) { typed(next == 1 ? ":&" : next == 2 ? ":g&" : ":G&"); if (ok) ok = subst(old, rep, next - 1); }
    else if (next == 4) { typed(":s/b/c/"); if (ok) ok = subst("b", "c", 0); }
    text(T); if (closed) both(sx_pick(2, "after") ? " b" : ""); expand(ok ? 1 : -1);
}
#else
static void run() {
    char old[8], rep[32]; letters(T, 1, H_N, H_ALPHA, "line"); sx_assume(T[0] != ' '); add_history(T); int ok, closed = piece(old, rep, '^', 1); ok = subst(old, rep, 0); text(T); if (closed) both(sx_pick(2, "after") ? " b" : ""); expand(ok ? 1 : -1);
    if (!ok) return;
    // and again with what was there before
    strcpy(T, H[0]); ni = nx = 0; letters(T, 1, H_N, H_ALPHA, "next"); sx_assume(T[0] != ' '); add_history(T); int k = sx_pick(3, "again"); if (k == 0) typed("!!:&"); else typed(k == 1 ? "!!:s//" : "!!:gs//"); if (k) { strcpy(rep, "x"); strcat(rep, old); typed("x&/"); } ok = subst(old, rep, k == 2); text(T); expand(ok ? 1 : -1);
}
#endif
#elif H_MODE == 6
static void run() {
    static const char* const MODES[] = { "on", "not_squoted", "not_dquoted", "not_quoted" }; int mode = sx_pick(4, "mode"); settings::find("history.expand_mode")->set(MODES[mode]); add_history("X"); int quote = 0, any = 0;
    static const char* const P[] = { "a", "'", "\"", "!!", " ", "! ", "!=" };
    for (int i = 0; i < H_N; i++) { int k = sx_pick(7, "piece"); if (k == 1 || k == 2) { int c = *P[k]; if (!quote) quote = c; else if (quote == c) quote = 0; both(P[k]); } else if (k == 3) { typed("!!"); int inhibit = (quote == '\'' && (mode & 1)) || (quote == '"' && (mode & 2)); if (inhibit) { text("!!"); sx_cover("inhibited"); } else { any = 1; text("X"); } } else both(P[k]); }
    sx_assume(!any || ex[0] != 0); expand(any ? 1 : 0);
}
#elif H_MODE == 7
static void result_is(int from, const char* r) { want[nwant].start = from; want[nwant].len = ni - from; strcpy(want[nwant].r, r); nwant++; }
static void run() {
    add_history("u v"); add_history("p q"); int any = 0, bad = 0, shown = 0, full = sx_pick(2, "list");
    for (int i = 0; i < H_N; i++) { int at = ni; char r[64]; const char* t = 0;
        switch (sx_pick(9, "piece")) { case 0: both("a"); continue; case 1: both(" "); continue; case 2: both("! "); continue; case 3: typed("!!"); t = "p q"; break; case 4: typed("!-2:0"); t = "u"; break; case 5: typed("!#"); strcpy(r, ex); t = r; if (strlen(ex) > 40) sx_assume(0); break;
        case 6: typed("!$"); t = "q"; break; case 7: typed("!!:p"); t = "p q"; shown = 1; break; case 8: typed("!7"); bad = 1; break; }
        if (bad) { both(" "); break; } any = 1; text(t); result_is(at, t); 
        both(" ");
    }
    int r = bad ? -1 : shown ? 2 : any; history_return_expansions = full; expand(r); history_expansion* e = history_expansions; if (!full || bad) nwant = 0;
    for (int i = 0; i < nwant; i++, e = e->next) { sx_check(!!e, "an expansion is listed"); if (!e) return; sx_check(e->start == want[i].start && e->len == want[i].len, "where it is"); sx_check(hx_eq(e->result, want[i].r), "what it stands for"); sx_cover("listed"); }
    if (full) sx_check(!e, "nothing else is listed");
}
#elif H_MODE == 8
static void run() {      // `%`: the word in which the searched string was found
    static char w[3][4]; char line[32] = "", s[4]; int n = 1 + sx_pick(3, "words"), hits = 0, at = -1; for (int i = 0; i < n; i++) { letters(w[i], 1, 3, "abc", "word"); if (i) strcat(line, " "); strcat(line, w[i]); } add_history(line); letters(s, 1, 2, "abc", "string"); for (int i = 0; i < n; i++) if (has(w[i], s)) { hits++; at = i; }
    sx_assume(hits < 2); typed("!?"); typed(s); typed("?"); typed(sx_pick(2, "colon") ? ":%" : "%"); if (hits) text(w[at]); int more = sx_pick(2, "more"); both(" "); if (more) { typed("!%"); if (hits) text(w[at]); } expand(hits ? 1 : -1);
}
#elif H_MODE == 9
static void run() {      // any text after a designator: only that nothing outside of it is read, and the result is one of the four
    add_history("a"); int n = hx_len(0, H_N, "length"), k = (int)strlen(H_PRE); char* s = (char*)malloc(k + n + 1); memcpy(s, H_PRE, k); for (int i = 0; i < n; i++) s[k + i] = H_ALPHA[sx_pick(sizeof(H_ALPHA) - 1, "char")]; s[k + n] = 0;
    str<> out; out = "untouched"; int got = db->expand(s, out); sx_check(got >= -1 && got <= 2, "kind of result"); sx_check(got >= 0 || hx_eq(out.c_str(), "untouched"), "an impossible expansion is refused"); sx_obs(got + 1); hx_obs(out.c_str()); sx_cover(got < 0 ? "refused" : "done");
}
#endif
void harness_main() {
    rl_backslash_path_sep = 1; history_host_backslash_escape = 0; using_history(); db = new history_db("hist", 1, true); settings::find("history.expand_mode")->set("on"); run();
}
