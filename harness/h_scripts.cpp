// clink installscripts and uninstallscripts: what they do to the list of script paths.
#include "hx.h"
#include <stdarg.h>
#include <stdio.h>
#include "getopt.h"
int32 installscripts(int32 argc, char** argv); int32 uninstallscripts(int32 argc, char** argv);
void puts_help(const char* const*, const char* const*, int32) {} void puts_clink_header() {}
// What is printed.
static char g_out[400]; static int g_n; static void out(const char* s) { while (*s && g_n < 399) g_out[g_n++] = *s++; g_out[g_n] = 0; }
extern "C" { int __mingw_vsnprintf(char*, size_t, const char*, va_list); int __mingw_vfprintf(FILE* o, const char* f, va_list ap) { static char b[9000]; int n = __mingw_vsnprintf(b, sizeof b, f, ap); if (o == stdout) out(b);
#ifndef SX_ENGINE
    else fwrite(b, 1, n, o);
#endif
    return n; }
int puts(const char* s) { out(s); out("\n"); return 0; } int fputs(const char* s, FILE*) { out(s); return 0; } size_t fwrite(const void* b, size_t, size_t, FILE*)
#ifdef SX_ENGINE
{ out((const char*)b); return 0; }
#else
;
#endif
}
static HKEY key() { HKEY k; RegCreateKeyExW(HKEY_CURRENT_USER, L"Software\\Clink", 0, 0, 0, KEY_READ | KEY_WRITE, 0, &k, 0); return k; }
static void put(const char* s, int nul) { wchar_t b[100]; int n = 0; for (; s[n]; n++) b[n] = (unsigned char)s[n]; b[n] = 0; RegSetValueExW(key(), L"InstalledScripts", 0, REG_SZ, (BYTE*)b, (n + nul) * 2); }
static const char* get() { static char o[100]; wchar_t b[100]; DWORD n = sizeof b, t = 0; *o = 0; if (RegGetValueW(HKEY_CURRENT_USER, L"Software\\Clink", L"InstalledScripts", RRF_RT_REG_SZ, &t, b, &n)) return o; for (int i = 0; i < 100; i++) { o[i] = (char)b[i]; if (!b[i]) break; } return o; }
static int run(int32 (*f)(int32, char**), const char* a1, const char* a2 = nullptr, const char* a3 = nullptr) { char* v[5] = { (char*)"x", (char*)a1, (char*)a2, (char*)a3, nullptr }; int n = 1; while (v[n]) n++; if (!optind) { char* w[] = { (char*)"clink", (char*)"x", nullptr }; getopt_long(2, w, "+?h", nullptr, nullptr); } optind = 1; g_n = 0; *g_out = 0; return f(n, v); }
struct List { const char* p[12]; int l[12], n; };
static List split(const char* s) { List c = {}; int i = 0; while (s[i]) { int b = i; while (s[i] && s[i] != ';') i++; if (i > b) { c.p[c.n] = s + b; c.l[c.n++] = i - b; } if (s[i]) i++; } return c; }
static int same(const char* a, int al, const char* b, int bl) { int i = 0, j = 0; while (i < al && j < bl) { if (hx_sep(a[i]) != hx_sep(b[j])) return 0; if (hx_sep(a[i])) { while (i < al && hx_sep(a[i])) i++; while (j < bl && hx_sep(b[j])) j++; } else { if (hx_up(a[i]) != hx_up(b[j])) return 0; i++; j++; } } return i == al && j == bl; }
static int is(const List& z, int i, const char* p, int l) { return z.l[i] == l && hx_eqn(z.p[i], p, l); }
static const char* copy(const char* s) { char* r = (char*)malloc(hx_slen(s) + 1); strcpy(r, s); return r; }
extern "C" void harness_main() {
    char* a = hx_alpha<char>(hx_len(0, H_N, "an"), H_ALPHA, "a");
    int nul = sx_pick(2, "nul"); if (*a || nul) put(a, nul);
    List x = split(copy(get()));
#if H_MODE == 0
    int words = sx_pick(3, "words"), inst = sx_pick(2, "install"); char* v = hx_alpha<char>(hx_len(0, H_V, "vn"), H_ALPHA, "v"); sx_assume(!words || *v);
    str<> path; if (words) path << v; if (words == 2) path << " b";
    int known = 0, semi = 0, k[12] = {}; for (int i = 0; i < x.n; i++) known |= k[i] = same(x.p[i], x.l[i], path.c_str(), path.length()); for (int i = 0; v[i]; i++) semi |= v[i] == ';';
    int rc = run(inst ? installscripts : uninstallscripts, words ? v : nullptr, words == 2 ? "b" : nullptr); const char* r = get(); List z = split(r); sx_traces("before", a, 1); sx_traces("path", path.c_str(), 1); sx_traces("after", r, 1); hx_obs(r); hx_obs(g_out);
    int todo = words && !semi && (inst ? !known : known); sx_check(rc == !todo, "the exit code"); sx_check(g_n > 0, "says nothing");
    int j = 0; for (int i = 0; i < x.n; i++) { if (todo && !inst && k[i]) continue; sx_check(j < z.n && is(z, j, x.p[i], x.l[i]), "another path is lost or changed"); j++; }
    if (todo && inst) { sx_check(j < z.n && is(z, j, path.c_str(), path.length()), "the path isn't added at the end"); j++; }
    sx_check(j == z.n, "a path too many"); sx_cover(!todo ? "refused" : inst ? "installed" : "uninstalled");
    // A second time is refused, the opposite undoes it.
    if (todo) { sx_check(run(inst ? installscripts : uninstallscripts, v, words == 2 ? "b" : nullptr) == 1, "done twice"); sx_check(run(inst ? uninstallscripts : installscripts, v, words == 2 ? "b" : nullptr) == 0, "can't be undone"); List u = split(get()); if (inst) { sx_check(u.n == x.n, "not undone"); for (int i = 0; i < u.n; i++) sx_check(is(u, i, x.p[i], x.l[i]), "not undone the same"); } }
#else
    // Listing prints each path on a line; --all removes each and says so.
    int w = sx_pick(5, "what"); const char* keep = copy(get());
    int rc = w == 0 ? run(installscripts, "-l") : w == 1 ? run(uninstallscripts, "--list") : w == 2 ? run(uninstallscripts, "-a", "-l") : w == 3 ? run(uninstallscripts, "--all") : run(uninstallscripts, "-a", "x");
    sx_check(rc == (w == 4), "the exit code"); if (w != 4) hx_obs(g_out); sx_traces("printed", g_out, 1); str<> e; 
    if (w != 4) for (int i = 0; i < x.n; i++) { if (w == 3) e << "Script path '"; e.concat(x.p[i], x.l[i]); e << (w == 3 ? "' uninstalled.\n" : "\n"); }
    sx_check(w == 4 || hx_eq(g_out, e.c_str()), "what is printed"); if (w == 3) { sx_check(!*get(), "paths are left over"); sx_cover("all"); } else { sx_check(hx_eq(get(), keep), "the list changed"); if (w != 4) sx_cover("listed"); }
#endif
}
