// str_compare agrees with a reference for every mode.
#include "hx.h"
#include "core/str_compare.h"
#ifndef H_N
#define H_N 3
#endif
static int lc(int c, int mode) { if (mode) { c = c + 32 * ((c >= 'A') & (c <= 'Z')); c = c + 32 * ((c >= 0xc0) & (c <= 0xde) & (c != 0xd7)); } if (mode > 1) c = c == '-' ? '_' : c; return c; }
static int same(int a, int b, int mode, int exact) { a = lc(a, mode); b = lc(b, mode); if (!exact) { a = a == '\\' ? '/' : a; b = b == '\\' ? '/' : b; } return a == b; }
// how far the strings agree, runs of separators counting as one
static int ref(const wchar_t* a, int n, const wchar_t* b, int m, int mode, int exact, int& all) {
    int i = 0, j = 0;
    while (i < n && j < m) {
        if (!same((unsigned short)a[i], (unsigned short)b[j], mode, exact)) break;
        int c = a[i]; i++; j++;
        if (c == '/' || (!exact && c == '\\')) { while (i < n && hx_sep(a[i])) i++; while (j < m && hx_sep(b[j])) j++; }
    }
    all = i == n && j == m; return i;
}
template<bool LCD, bool EX> static void go(int mode) {
    int n = hx_len(0, H_N, "n"), m = hx_len(0, H_N, "m");
    wchar_t* a = hx_str<wchar_t>(n, "a"); wchar_t* b = hx_str<wchar_t>(m, "b");
    for (int i = 0; i < n; i++) sx_assume((unsigned short)a[i] < 0x100); for (int i = 0; i < m; i++) sx_assume((unsigned short)b[i] < 0x100);
    str_compare_scope _(mode, false);
    int r = str_compare<wchar_t, LCD, EX>((const wchar_t*)a, (const wchar_t*)b); int all; int e = ref(a, n, b, m, mode, EX, all);
    sx_check(r == ((!LCD && all) ? -1 : e), "comparison result"); sx_obs(r); if (all) sx_cover("equal"); else sx_cover("different");
    if (!LCD) { int r2 = str_compare<wchar_t, LCD, EX>((const wchar_t*)b, (const wchar_t*)a); sx_check((r == -1) == (r2 == -1), "comparison is not symmetric"); }
    str<8> ua, ub; to_utf8(ua, a); to_utf8(ub, b); int r8 = str_compare<char, LCD, EX>(ua, ub);   // the same text in UTF-8
    if (r == -1 || r8 == -1) sx_check(r == r8, "UTF-8 and UTF-16 comparison differ"); else { int u = 0; for (int i = 0; i < r && i < n; i++) u += (unsigned short)a[i] >= 0x80 ? 2 : 1; sx_check(r8 == u, "UTF-8 and UTF-16 comparison differ in length"); }
    free(a); free(b);
}
extern "C" void harness_main() {
    int mode = sx_pick(3, "mode");
    switch (sx_pick(3, "form")) { case 0: go<false, false>(mode); break; case 1: go<true, false>(mode); break; case 2: go<false, true>(mode); break; }
    sx_check(str_compare_scope::current() == 0, "scope restored");
}
