// clink autorun: what installing and uninstalling does to the AutoRun commands.
#include "hx.h"
#include "getopt.h"
int32 autorun(int32 argc, char** argv); void puts_help(const char* const*, const char* const*, int32) {} void puts_clink_header() {}
static HKEY key(int all, int wow) { HKEY k; RegCreateKeyExW(all ? HKEY_LOCAL_MACHINE : HKEY_CURRENT_USER, L"Software\\Microsoft\\Command Processor", 0, 0, 0, KEY_READ | KEY_WRITE | (wow ? KEY_WOW64_32KEY : KEY_WOW64_64KEY), 0, &k, 0); return k; }
static void put(HKEY k, const char* s) { wchar_t b[400]; int n = 0; do b[n] = (unsigned char)s[n]; while (s[n++]); RegSetValueExW(k, L"AutoRun", 0, REG_SZ, (BYTE*)b, n * 2); }
static const char* get(HKEY k) { static char r[4][6000]; static int i; wchar_t b[6000]; DWORD n = sizeof b, t = 0; char* o = r[i++ & 3]; *o = 0; if (RegQueryValueExW(k, L"AutoRun", 0, &t, (BYTE*)b, &n)) return nullptr; DWORD j; for (j = 0; j < n / 2; j++) o[j] = (char)b[j]; o[j] = 0; sx_check(t == REG_SZ || t == REG_EXPAND_SZ, "type"); sx_check(n && !o[n / 2 - 1], "unterminated value"); return o; }
static int run(const char* verb, const char* a1 = nullptr, const char* a2 = nullptr, const char* a3 = nullptr, const char* a4 = nullptr) { char* v[7] = { (char*)"autorun" }; int n = 1; v[n++] = (char*)verb; if (a1) v[n++] = (char*)a1; if (a2) v[n++] = (char*)a2; if (a3) v[n++] = (char*)a3; if (a4) v[n++] = (char*)a4; v[n] = nullptr; optind = 0; extern str<> g_clink_args; g_clink_args.clear(); return autorun(n, v); }
// The commands of a value: separated by & outside quotes; without spaces around them.
struct Cmds { const char* p[10]; int l[10], n; };
static Cmds split(const char* s) { Cmds c = {}; int i = 0; while (s && s[i]) { int b = i, q = 0; while (s[i] && (q || s[i] != '&')) { if (s[i] == '"') q = !q; i++; } int e = i; while (b < e && s[b] == ' ') b++; while (e > b && s[e - 1] == ' ') e--; if (e > b) { if (c.n == 10) sx_cut("commands"); c.p[c.n] = s + b; c.l[c.n++] = e - b; } if (s[i]) i++; } return c; }
static int eqc(const Cmds& a, int i, const char* p, int l) { return a.l[i] == l && hx_eqn(a.p[i], p, l); }
static char* balanced(int n, const char* al, const char* nm) { char* s = hx_alpha<char>(n, al, nm); int q = 0; for (int i = 0; i < n; i++) if (sx_conc(s[i] == '"')) q = !q; sx_assume(!q); return s; }
extern "C" void harness_main() {
    static const char* ENTRY[] = { "clink inject", "C:\\c\\clink inject", "\"C:\\c\\clink\" inject", "\"C:\\a & b\\clink.bat\" inject --autorun", "C:\\c\\clink_x64.exe inject", "\"C:\\c d\\clink_x86.exe\" inject", "C:\\c\\clink.bat inject -q", "call \"C:\\c\\clink.bat\" inject" };
    int all = H_ALLUSERS; HKEY k = key(all, 0), kw = key(1, 1); const char* flag = all ? "--allusers" : nullptr;
#ifdef H_LONG
    { put(k, "foo"); int n = hx_len(0, 3, "far") * 1000; char* l = (char*)malloc(n + 1); memset(l, 'x', n); l[n] = 0; run("install", "--", "--profile", l); const char* r = get(k); sx_check(r && hx_slen(r) == 4 + (int)sizeof("\"C:\\Pr d\\clink\\clink.bat\" inject --autorun") - 1 + 11 + n, "a long argument is cut off"); hx_obs(r); return; }
#endif
    str<> v; char *a = balanced(hx_len(0, H_N, "an"), H_ALPHA, "a"), *b = balanced(hx_len(0, H_N, "bn"), H_MODE ? "a &\\" : H_ALPHA, "b"); 
#if H_MODE == 0      // uninstalling removes the entry and nothing else
    char* g = balanced(hx_len(0, H_G, "gn"), H_GALPHA, "g"); for (int i = 0, q = 0; g[i]; i++) { if (g[i] == '"') q = !q; sx_assume(q || g[i] != '&'); }
    const char* e = ENTRY[sx_pick(8, "entry")]; int have = sx_pick(2, "have");
    v << a; if (have) { if (*a) v << "&"; v << e; if (*g) v << " " << g; if (*b) v << "&"; } v << b; if (v.length()) { put(k, v.c_str()); if (all) put(kw, v.c_str()); }
    Cmds x = split(a), y = split(b); if (!have) { Cmds all = split(v.c_str()); x = all; y.n = 0; }
    sx_check(run("uninstall", flag) == 0, "uninstall failed");
    for (int w = 0; w <= all; w++) { const char* r = get(w ? kw : k); Cmds z = split(r); sx_traces("before", v.c_str(), 1); sx_traces("after", r ? r : "(none)", 1);
    sx_check(z.n == x.n + y.n, "commands are missing or left over"); for (int i = 0; i < x.n; i++) sx_check(eqc(z, i, x.p[i], x.l[i]), "a command before the entry changed"); for (int i = 0; i < y.n; i++) sx_check(eqc(z, x.n + i, y.p[i], y.l[i]), "a command behind the entry changed"); 
    if (!have && v.length()) sx_check(r && hx_eq(r, v.c_str()), "a value without an entry changed"); if (r) hx_obs(r); }
    sx_cover(have ? "removed" : "kept"); 
#else                // installing keeps the other commands and adds one entry at the end; uninstalling gives back what was there
    v << a; if (v.length()) { put(k, v.c_str()); if (all) put(kw, v.c_str()); } Cmds x = split(v.c_str());
    for (int times = sx_pick(2, "again") + 1; times--;) sx_check((flag ? run("install", flag, "--", "--profile", b) : run("install", "--", "--profile", b)) == 0, "install failed");
    for (int w = 0; w <= all; w++) { const char* r = get(w ? kw : k); sx_check(!!r, "no value"); Cmds z = split(r); sx_traces("value", r, 1); sx_check(z.n == x.n + 1, "not exactly one entry was added"); for (int i = 0; i < x.n; i++) sx_check(eqc(z, i, x.p[i], x.l[i]), "another command changed");
    static const char E[] = "\"C:\\Pr d\\clink\\clink.bat\" inject --autorun"; sx_check(z.l[x.n] >= (int)sizeof E - 1 && hx_eqn(z.p[x.n], E, sizeof E - 1), "the entry"); hx_obs(r);
    // The argument as the C runtime reads it: quotes taken off, backslashes before the closing quote halved.
    if (*b && !w) { const char* q = z.p[x.n] + sizeof E - 1 + 11; int l = z.l[x.n] - (int)sizeof E + 1 - 11, quoted = *q == '"', bs = 0, bl = hx_slen(b), tr = 0; if (quoted) { q++; l -= 2; sx_check(l >= 0 && q[l] == '"', "quotes"); while (bs < l && q[l - 1 - bs] == '\\') bs++; sx_check(!(bs & 1), "the closing quote is escaped"); l -= bs / 2; } sx_check(l == bl && hx_eqn(q, b, bl), "the argument changed"); sx_cover("argument"); } }
    sx_check(run("uninstall", flag) == 0, "uninstall failed"); 
    for (int w = 0; w <= all; w++) { Cmds z = split(get(w ? kw : k)); sx_check(z.n == x.n, "uninstalling doesn't give back the commands"); for (int i = 0; i < x.n; i++) sx_check(eqc(z, i, x.p[i], x.l[i]), "uninstalling changed a command"); }
    sx_cover("installed");
#endif
}
