// wildmatch (fnmatch patterns, with ** as git has it) agrees with a reference matcher.
#include "hx.h"
#include "wildmatch/wildmatch.h"
enum { END, LIT, ANY, STAR, DIRS, REST, SET, BAD };
static int lo(int c) { return c + 32 * ((c >= 'A') & (c <= 'Z')); }
static const char* P; static int FL, PN;
static int has(int f) { return (FL & f) != 0; }
static int slash(int c) { return (c == '/') | (has(WM_SLASHFOLD) & (c == '\\')); }
static int M[H_P + 2][H_F + 2];
// Reads the bracket expression after P[i - 1] == '['; whether t is in the set; 'next' is the place after it, or -1 when there is no end.
static int in_set(int i, int t, int& next) {
    t = slash(t) ? '/' : has(WM_CASEFOLD) ? lo(t) : t; int neg = P[i] == '!' || P[i] == '^', ok = 0, no = 0; i += neg; next = -1;
    for (int first = 1; ; first = 0) {
        int c = P[i]; if (c == ']' && !first) { next = i + 1; break; } if (c == '\\' && !has(WM_NOESCAPE)) c = P[++i]; if (!c) return 0; i++;
        if (c == '/' && has(WM_PATHNAME)) no = 1;
        int e = c; if (P[i] == '-' && P[i + 1] && P[i + 1] != ']') { i++; e = P[i]; if (e == '\\' && !has(WM_NOESCAPE)) e = P[++i]; if (!e) return 0; i++; }
        if (has(WM_CASEFOLD)) { c = lo(c); e = lo(e); } int a = c < e ? c : e, b = c < e ? e : c; ok |= (a <= t) & (t <= b);
    }
    return no ? 0 : ok != neg;
}
static void def(const char* f, int fn) {
    for (int i = PN; i >= 0; i--) for (int j = fn; j >= 0; j--) {
        int in = j < fn, d = in ? f[j] : 0, s = in & slash(d), dot = in & has(WM_PERIOD) & (d == '.') & (j == 0 ? 1 : has(WM_PATHNAME) & slash(f[j - 1])), r = 0;
        int one = in & (1 ^ (has(WM_PATHNAME) & s)) & (1 ^ dot), c = P[i];
        if (i == PN) r = (j == fn) | (has(WM_LEADING_DIR) & s);
        else if (c == '?') r = one ? M[i + 1][j + 1] : 0;
        else if (c == '*') {
            int e = i; while (P[e] == '*') e++; int w = has(WM_WILDSTAR) && e - i > 1 && (i == 0 || P[i - 1] == '/');
            if (w && !P[e]) r = 1;
            else if (w) { for (int k = j; k <= fn; k++) { int at = k == j ? 1 : slash(f[k - 1]); r |= at & M[e + 1][k]; } }
            else r = (dot ? 0 : M[e][j]) | (one ? M[i][j + 1] : 0);
        }
        else if (c == '[') { int nx = -1, y = in_set(i + 1, d, nx); r = nx < 0 ? 0 : one & y ? M[nx][j + 1] : 0; }
        else { int q = i + 1; if (c == '\\' && !has(WM_NOESCAPE)) c = P[q++]; r = !c || !in ? 0 : (c == d) | (has(WM_CASEFOLD) & (lo(c) == lo(d))) | ((c == '/') & s) ? M[q][j + 1] : 0; }
        M[i][j] = r;
    }
}
static int in(int c, int a, int b) { return (c >= a) & (c <= b); }
static void classes() {
    static const char* const N[] = { "alnum", "alpha", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "xdigit" };
    int k = sx_pick(12, "class"), neg = sx_pick(3, "negated"), fold = sx_pick(2, "flag"), with = sx_pick(3, "with"); unsigned char f[2] = {}; sx_sym(f, 1, "f"); sx_assume(f[0] != 0); int c = f[0];
    char p[32] = "["; if (neg) strcat(p, neg == 1 ? "!" : "^"); if (with == 1) strcat(p, "0-4"); strcat(p, "[:"); strcat(p, N[k]); strcat(p, ":]"); if (with == 2) strcat(p, "-x"); strcat(p, "]");
    int up = in(c, 'A', 'Z'), lw = in(c, 'a', 'z'), dg = in(c, '0', '9'), gr = in(c, 33, 126), r = 0; if (fold) { lw |= up; up |= lw; }
    switch (k) { case 0: r = up | lw | dg; break; case 1: r = up | lw; break; case 2: r = (c == ' ') | (c == 9); break; case 3: r = in(c, 1, 31) | (c == 127); break; case 4: r = dg; break; case 5: r = gr; break; case 6: r = lw; break; case 7: r = gr | (c == ' '); break;
        case 8: r = gr & (1 ^ (up | lw | dg)); break; case 9: r = in(c, 9, 13) | (c == ' '); break; case 10: r = up; break; default: r = dg | in(c, 'a', 'f') | in(c, 'A', 'F'); }
    if (with == 1) r |= in(c, '0', '4'); if (with == 2) r |= (c == '-') | (c == 'x') | (fold & (c == 'X'));
    int m = wildmatch(p, (const char*)f, fold ? WM_CASEFOLD : 0) == WM_MATCH; sx_check(m == (neg ? !r : r), "character class"); sx_obs(m); sx_cover(m ? "match" : "no match"); sx_cover("end");
}
extern "C" void harness_main() {
#if H_P == 0
    classes(); return;
#endif
    int pn = hx_len(0, H_P, "pn"), fn = hx_len(0, H_F, "fn"); char* p = hx_alpha<char>(pn, H_PA, "p"), *f = hx_alpha<char>(fn, H_FA, "f");
    if (H_CONC) for (int i = 0; i < pn; i++) p[i] = (char)sx_conc((unsigned char)p[i]);   // split into one case per pattern
    static const int sets[] = { H_FLAGS }; FL = 0; for (int x : sets) if (sx_pick(2, "flag")) FL |= x; P = p; PN = pn; int given = FL; if (has(WM_WILDSTAR)) FL |= WM_PATHNAME;
    // The meaning of several stars is given only for those that are a whole element.
    if (has(WM_WILDSTAR)) for (int i = 0; i < pn; i++) if (p[i] == '*' && p[i + 1] == '*' && (i == 0 || p[i - 1] != '*')) { int e = i; while (p[e] == '*') e++; sx_assume((i == 0 || p[i - 1] == '/') && (!p[e] || p[e] == '/')); }
    def(f, fn); int m = wildmatch(p, f, given) == WM_MATCH; sx_check(m == M[0][0], "match differs from the definition"); sx_obs(m); sx_cover(m ? "match" : "no match"); free(p); free(f); sx_cover("end");
}
