// Doskey macros: what a line expands to, against the documented rules.
#include "hx.h"
#include "lib/doskey.h"
#include "core/settings.h"
struct Out { char t[256]; int n; void add(char c) { if (n < 255) t[n++] = c; t[n] = 0; } void add(const char* s, int k) { for (int i = 0; i < k; i++) add(s[i]); } };
static const char* g_text; static const char NAME[] = "al"; static int ENH;
static int isname(const char* s, int n) { return n == 2 && s[0] == 'a' && s[1] == 'l'; }
static int cmdend(const char* s, int i, int n) { int q = 0; while (i < n) { int c = s[i]; if (c == '"') q = !q; else if (!q) { if (c == '|' || c == '&') return i; if (c == '>' && i + 1 < n && s[i + 1] == '&') i++; else if (c == '^' && i + 1 < n) i++; } i++; } return n; }
// Expands one command at i; returns the end of what was used up, or -1.
static int expand(const char* s, int i, int n, Out& o) {
    if (i >= n || s[i] == ' ') return -1;
    int e = i; while (e < n && s[e] != ' ') { if (s[e] == '>') { e++; if (e < n && s[e] == '&') e++; } else e++; }
    if (!isname(s + i, e - i)) { if (!ENH) return -1; e = i; while (e < n && s[e] != ' ' && s[e] != '|' && s[e] != '&') { if (s[e] == '>') { e++; if (e < n && s[e] == '&') e++; } else e++; } if (!isname(s + i, e - i)) return -1; }
    while (e < n && s[e] == ' ') e++;
    int split = ENH; if (split) { int q = 0; for (const char* t = g_text; *t; t++) { if (*t == '"') q = !q; if (*t == '$') { int c = t[1]; if ((c == '*' || (c >= '1' && c <= '9')) && q) split = 0; else if (c == '$') t++; } } }
    int end = split ? cmdend(s, e, n) : n;
    int a[12], l[12], k = 0, p = e;      // arguments: separated by spaces, in enhanced mode not inside quotes
    while (p < end && k < 10) { while (p < end && s[p] == ' ') p++; if (p >= end) break; int q = 0; a[k] = p; while (p < end && (q || s[p] != ' ')) { if (ENH && s[p] == '"') q = !q; p++; } l[k] = p - a[k]; k++; }
    for (const char* t = g_text; *t; t++) {
        if (*t != '$') { o.add(*t); continue; }
        int c = *++t; if (!c) break;
        if (c == '$') o.add('$'); else if (c == 'g' || c == 'G') o.add('>'); else if (c == 'l' || c == 'L') o.add('<'); else if (c == 'b' || c == 'B') o.add('|'); else if (c == 't' || c == 'T') o.add('\n');
        else if (c >= '1' && c <= '9') { if (c - '1' < k) o.add(s + a[c - '1'], l[c - '1']); }
        else if (c == '*') { if (k) o.add(s + a[0], end - a[0]); }
        else { o.add('$'); o.add((char)c); }
    }
    return end;
}
extern "C" void harness_main() {
#ifdef H_LONG
    { settings::find("doskey.enhanced")->set("1"); int k = 32760 + (int)sx_conc(sx_int(0, 1, "far")) * 16; doskey d("shell"); d.add_alias(NAME, "x $1 $2"); str<> line("al "); for (int i = 0; i < k; i++) line << "a"; line << " b"; doskey_alias a; d.resolve(line.c_str(), a); const char* r = a.UNITTEST_get_stream().c_str(); sx_check(hx_slen(r) == k + 4 && r[2] == 'a' && r[k + 1] == 'a' && r[k + 3] == 'b', "long argument"); return; }
#endif
#ifdef H_LONGTEXT
    { int k = 4090 + hx_len(0, 10, "far"); doskey d("shell"); str<> text; for (int i = 0; i < k; i++) text << "x"; sx_check(d.add_alias(NAME, text.c_str()), "add"); doskey_alias a; d.resolve("al", a); sx_check((int)a.UNITTEST_get_stream().length() == k, "long macro"); return; }
#endif
    ENH = H_ENH; settings::find("doskey.enhanced")->set(ENH ? "1" : "0");
    char* t = hx_alpha<char>(hx_len(H_T0, H_T, "tn"), H_TA, "t"); str<> text(H_TPRE); text << t; g_text = text.c_str(); sx_assume(*g_text != 0);
    char* l = hx_alpha<char>(hx_len(0, H_N, "n"), H_LA, "l"); str<> line(H_LPRE); line << l; const char* s = line.c_str(); int n = line.length();
    doskey d("shell"); sx_check(d.add_alias(NAME, text.c_str()), "add");
    Out o = {}; int i = 0, any = 0;
    while (i < n) {
        int e = expand(s, i, n, o); if (e >= 0) { any = 1; i = e; } else { if (!ENH) break; e = cmdend(s, i, n); o.add(s + i, e - i); i = e; }
        while (i < n && (s[i] == '|' || s[i] == '&')) o.add(s[i++]);
        if (i < n && s[i] == ' ') o.add(s[i++]);
    }
    doskey_alias a; int pt = hx_len(0, n, "pt"); d.resolve(s, a, H_PT ? &pt : nullptr);
    if (!any) { sx_check(!a, "expanded, but it has no macro"); sx_cover("none"); return; }
    sx_check(hx_eq(a.UNITTEST_get_stream().c_str(), o.t), "expansion"); hx_obs(o.t); sx_cover("expanded"); sx_obs(pt);
    if (H_PT) sx_check(pt >= 0 && pt <= o.n, "the cursor is outside the expanded line");
    sx_check(!!a == !!o.n, "is there a line"); const char* p = o.t; str<> one;
    while (*p) { int k = 0; while (p[k] && p[k] != '\n') k++; sx_check(a.next(one), "line missing"); sx_check((int)one.length() == k && hx_eqn(one.c_str(), p, k), "line of a macro"); p += k; if (*p) { p++; sx_cover("lines"); } }
    sx_check(!a.next(one), "too many lines");
}
