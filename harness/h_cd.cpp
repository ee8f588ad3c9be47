// Which input lines are directory shortcuts, and which command they become.
#include "hx.h"
#include "core/os.h"
#include "lib/intercept.h"
#include "lib/doskey.h"
extern "C" int (*sx_isdir)(const wchar_t*);
static int isdir(const wchar_t* s) { int n = hx_slen(s); for (int i = 0; i < n; i++) if (s[i] == 'x' || s[i] == '%') return 0; return n > 0; }
static int ws(int c) { return c == ' ' || c == '\t'; }
static int word(const char* s, const char* w) { int i = 0; for (; w[i]; i++) if (hx_up(s[i]) != hx_up(w[i])) return 0; return i; }
extern "C" void harness_main() {
    sx_isdir = isdir; SetEnvironmentVariableW(L"V", L"C:\\v\\"); SetEnvironmentVariableW(L"HOME", L"C:\\home"); if (H_ALIAS) { doskey d(os::get_shellname()); d.add_alias("cd", "echo"); }
    char* t = hx_alpha<char>(hx_len(0, H_N, "n"), H_ALPHA, "t"); str<> in(H_PRE); in << t << H_POST; const char* s = in.c_str(); intercept_mode mode = (intercept_mode)H_MODE;
    str<> out("unchanged"); intercept_result r = intercept_directory(s, &out, mode);
    hx_obs(out.c_str()); sx_obs((int)r);
    // "-", "cd -", "chdir -", also with "/d"
    { const char* p = s; int cd = 0, k; while (ws(*p)) p++; const char* q = p; if ((k = word(q, "cd")) || (k = word(q, "chdir"))) { q += k; int sp = 0; while (ws(*q)) q++, sp = 1; if (word(q, "/d")) { q += 2; sp = 0; while (ws(*q)) q++, sp = 1; } if (sp) { cd = k; p = q; } }
      int dash = *p == '-'; if (dash) { p++; while (ws(*p)) p++; dash = !*p; } if (H_MODE == 1 && (!cd || (H_ALIAS && cd == 2))) dash = 0;
      if (dash) { sx_check(r == intercept_result::prev_dir, "not taken as the previous directory"); sx_cover("previous"); return; } sx_check(r != intercept_result::prev_dir, "taken as the previous directory"); }
    if (H_MODE == 1) { sx_check(r == intercept_result::none && out.equals("unchanged"), "only cd was asked for"); return; }
    // one word that names a directory
    char w[64]; int n = 0, q = 0, ok = 1, env = 0, i = 0, first = 1; while (ws(s[i])) i++;
    for (; s[i] && ok; i++) {
        int c = s[i]; if (ws(c) && !q) { while (ws(s[i])) i++; if (s[i]) ok = 0; break; }
        if (c == '<' || c == '>' || c == '|') ok = 0; else if (!q && (c == '&' || c == '(' || c == ';' || c == '=')) ok = 0;
        if (c == '"') { q = !q; first = 0; continue; } if (c == '^' && !q && s[i + 1]) { first = 0; continue; } if (c == '^') first = 0; if (c == '%') { env = 1; first = 0; }
        if ((c == '.' || hx_sep(c)) && first) { first = 0; w[n] = 0; if (n == 2 && (word(w, "cd") || word(w, "md"))) ok = 0; }
        w[n++] = (char)c;
    }
    w[n] = 0; if (!n) ok = 0;
    if (ok && env) { char v[64]; int k = 0; for (int j = 0; j < n; ) { if (w[j] == '%' && hx_up(w[j + 1]) == 'V' && w[j + 2] == '%') { const char* x = "C:\\v\\"; while (*x) v[k++] = *x++; j += 3; } else if (w[j] == '%') { int e = j + 1; while (e < n && w[e] != '%') e++; int stop = e < n && e > j + 1 ? e + 1 : e; while (j < stop) v[k++] = w[j++]; } else v[k++] = w[j++]; } v[k] = 0; n = k; for (int j = 0; j <= k; j++) w[j] = v[j]; if (!n) ok = 0; }
    str<> e; int dots = 0;
    if (ok) { while (dots < n && w[dots] == '.') dots++; int rest = n - dots; if (dots >= 2 && (rest == 0 || (rest == 1 && hx_sep(w[dots])))) { for (int j = 1; j < dots; j++) e << "..\\"; } else { dots = 0; e = w;
        if (!(n == 1 && w[0] == '~') && !hx_sep(w[n - 1])) { int j = 0, up = 1; while (up) { if (w[j] != '.' || w[j + 1] != '.') up = 0; else if (!w[j + 2]) break; else if (!hx_sep(w[j + 2])) up = 0; j += 3; } if (up) e << "\\"; else ok = 0; } } }
    if (ok && e.c_str()[0] == '~' && (!e.c_str()[1] || hx_sep(e.c_str()[1]))) { sx_check(r == intercept_result::chdir || !isdir(L"C:\\home") || strchr(e.c_str(), 'x'), "home directory"); if (r == intercept_result::chdir) sx_check(hx_eqn(out.c_str(), " cd \"C:\\home", 12), "command for the home directory"); sx_cover("home"); return; }
    if (ok && !dots) for (const char* p = e.c_str(); *p; p++) if (*p == 'x' || *p == '%') ok = 0;
    if (ok && !dots && H_MODE == 2 && hx_up(e.c_str()[0]) == 'N' && e.c_str()[1] == ':') ok = 0;
    if (!ok) { sx_check(r == intercept_result::none, "taken as a directory"); sx_check(out.equals("unchanged"), "the line was changed"); sx_cover("other"); return; }
    sx_check(r == intercept_result::chdir, "not taken as a directory"); sx_cover(dots ? "dots" : "directory");
    str<> c; for (unsigned j = 0; j < e.length(); j++) if (e.c_str()[j] == '/') e.data()[j] = '\\';
    const char* x = e.c_str(); if (hx_isal(x[0]) && x[1] == ':' && hx_up(x[0]) != 'C') { c << " "; c.concat(x, 2); c << " & cd \"" << x << "\""; sx_cover("drive"); } else c << " cd \"" << x << "\"";
    sx_check(hx_eq(out.c_str(), c.c_str()), "command");
}
