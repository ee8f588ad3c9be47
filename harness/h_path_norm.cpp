// normalise: stays within the buffer, never grows, idempotent, keeps the meaning of the path.
#include "hx.h"
#include "core/path.h"
#ifndef H_N
#define H_N 6
#endif
#ifndef H_ALPHA
#define H_ALPHA "/\\.a:?"
#endif
// Reference reading of a path: prefix kind, prefix end, rooted, resolved elements.
struct R { int dev, unc, ns; int pe; int rooted; int ups; int n; int st[40], ln[40]; int names; };
static int skipseps(const char* s, int i) { while (hx_sep(s[i])) i++; return i; }
static int skipname(const char* s, int i) { while (s[i] && !hx_sep(s[i])) i++; return i; }
static void ref(const char* s, R& r) {
    memset(&r, 0, sizeof(r));
    int i = 0;
    if (hx_sep(s[0]) && hx_sep(s[1])) {
        int a = skipseps(s, 0);
        if (a == 2 && s[2] == '.' && hx_sep(s[3])) { r.dev = 1; i = 2; }
        else if (s[a] == '.' && (!s[a + 1] || hx_sep(s[a + 1]))) { r.unc = 0; i = 0; }
        else if (a == 2 && s[2] == '?' && hx_sep(s[3])) {
            r.ns = 1; i = skipseps(s, 3);
            if (hx_up(s[i]) == 'U' && hx_up(s[i + 1]) == 'N' && hx_up(s[i + 2]) == 'C' && hx_sep(s[i + 3])) { r.unc = 1; i = skipseps(s, i + 3); }
            else if (hx_isal(s[i]) && s[i + 1] == ':') i += 2;
            else i = r.ns ? i : i;
        }
        else { r.unc = 1; i = a; }
        if (r.unc) { i = skipname(s, i); i = skipseps(s, i); i = skipname(s, i); }
    }
    else if (hx_isal(s[0]) && s[1] == ':') i = 2;
    r.pe = i;
    r.rooted = r.unc || r.dev || (r.ns && 1) || hx_sep(s[i]);
    for (;;) {
        i = skipseps(s, i); if (!s[i]) break;
        int j = skipname(s, i);
        if (!r.dev && j == i + 1 && s[i] == '.') {}
        else if (!r.dev && j == i + 2 && s[i] == '.' && s[i + 1] == '.') { if (r.n) r.n--; else if (!r.rooted) r.ups++; }
        else { r.st[r.n] = i; r.ln[r.n++] = j - i; }
        i = j;
    }
}
extern "C" void harness_main() {
    int n = hx_len(0, H_N, "n");
    const char* pre = "";
#ifdef H_PREFIX
    pre = H_PREFIX;
#endif
    int pl = hx_slen(pre);
    char* sym = hx_alpha<char>(n, H_ALPHA, "s");
    char* s = (char*)malloc(n + pl + 1); memcpy(s, pre, pl); memcpy(s + pl, sym, n + 1); n += pl;
    char* in = strdup(s);
    R a, b; ref(in, a);
    path::normalise(s);
    int m = hx_slen(s); ref(s, b);
    sx_check(m <= n, "normalise grew the path");
    hx_obs(s);
    sx_check(a.dev == b.dev && a.unc == b.unc && a.ns == b.ns, "normalise changed the kind of path");
    sx_check(a.rooted == b.rooted, "normalise changed whether the path is rooted");
    sx_check(a.ups == b.ups && a.n == b.n, "normalise changed the number of elements");
    for (int k = 0; k < a.n && k < b.n; k++) { int e = a.ln[k] == b.ln[k]; if (e) e = hx_eqn(in + a.st[k], s + b.st[k], a.ln[k]); sx_check(e, "normalise changed an element"); }
    for (int i = b.pe; i < m; i++) { sx_check(s[i] != '/', "non-native separator left"); if (i + 1 < m && i >= 2) sx_check(!(hx_sep(s[i]) && hx_sep(s[i + 1])), "empty element left"); }
    for (int k = 0; k < b.n; k++) sx_check(!(b.ln[k] == 1 && s[b.st[k]] == 46) || b.dev, "a . element is left");
    if (!b.dev) { int i = b.pe, left = b.ups, ok = 1; for (;;) { i = skipseps(s, i); if (!s[i]) break; int j = skipname(s, i); int dd = j == i + 2 && s[i] == 46 && s[i + 1] == 46; if (dd) { if (left) left--; else ok = 0; } else { if (left) ok = 0; } i = j; } sx_check(ok, "a removable .. element is left"); }
    char* t = strdup(s);
    path::normalise(t);
    sx_check(hx_eq(s, t), "normalise not idempotent");
    free(t); free(in); free(s); free(sym);
    sx_cover("end");
}
