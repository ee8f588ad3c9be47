// Colour descriptions: what is accepted means what the words say, and describing the result gives the same colour.
#include "hx.h"
#include "core/settings.h"
static const char* const W[] = { "on", "bold", "nobold", "bright", "underline", "italic", "reverse", "default", "red", "whi", "#1aC", "#102f30", "NORMAL", "bl" };
struct A { int bold, it, ul, rev, fg, bg; };
static A interp(const char* p) {      // effect of the SGR parameters on the default rendition
    A a = {0, 0, 0, 0, -1, -1}; int v[24], k = 0; while (*p && k < 24) { int x = 0; while (*p && *p != ';') { sx_check(*p >= '0' && *p <= '9', "not an SGR parameter"); x = x * 10 + *p++ - '0'; } if (*p) { p++; sx_check(*p, "empty SGR parameter"); } v[k++] = x; }
    for (int i = 0; i < k; i++) { int c = v[i]; if (!c) a = A{0, 0, 0, 0, -1, -1}; else if (c == 1) a.bold = 1; else if (c == 22) a.bold = 0; else if (c == 3) a.it = 1; else if (c == 4) a.ul = 1; else if (c == 7) a.rev = 1; else if (c == 39) a.fg = -1; else if (c == 49) a.bg = -1;
        else if (c == 38 || c == 48) { sx_check(i + 4 < k && v[i + 1] == 2, "colour parameters"); (c == 38 ? a.fg : a.bg) = 1000 + v[i + 2] * 65536 + v[i + 3] * 256 + v[i + 4]; i += 4; }
        else if (c >= 30 && c < 38) a.fg = c - 30; else if (c >= 90 && c < 98) a.fg = c - 82; else if (c >= 40 && c < 48) a.bg = c - 40; else if (c >= 100 && c < 108) a.bg = c - 92; else sx_check(0, "unknown SGR parameter"); }
    return a;
}
static int same(const A& a, const A& b) { return a.bold == b.bold && a.it == b.it && a.ul == b.ul && a.rev == b.rev && a.fg == b.fg && a.bg == b.bg; }
extern "C" void harness_main() {
    int n = hx_len(1, H_N, "n"); str<> t; A w = {0, 0, 0, 0, -1, -1}; int part = 0, br[2] = {0, 0}, hex[2] = {0, 0}, col[2] = {0, 0}, canon = 1, stage = 0, amb = 0;
    for (int i = 0; i < n; i++) {
        int k = sx_pick(sizeof(W) / sizeof(W[0]), "word"); if (i) t << " "; int hv = k == 10 ? 0x11aacc : 0x102f30;
#ifdef H_HEX
        if (k == 10 || k == 11) { int m = k == 10 ? 3 : 6; char* d = hx_alpha<char>(m, H_HEX, "hex"); t << "#" << d; hv = 0; for (int j = 0; j < m; j++) { int x = (d[j] & 15) + 9 * (d[j] > 64); hv = hv * 16 + x; if (m == 3) hv = hv * 16 + x; } free(d); } else t << W[k];
#else
        t << W[k];
#endif
        int& c = part ? w.bg : w.fg;
        if (k == 0) { canon &= !part && i + 1 < n; part = 1; stage = 1; }
        else if (k == 1) { w.bold = 1; canon &= stage == 0; } else if (k == 2) { canon &= stage == 0; } else if (k == 4) { w.ul = 1; canon &= stage == 0; } else if (k == 5) { w.it = 1; canon &= stage == 0; } else if (k == 6) { w.rev = 1; canon &= stage == 0; }
        else if (k == 3) { canon &= stage < 2; stage = 2; br[part] = 1; }
        else if (k == 7 || k == 12) { canon &= stage < 2; stage = 3; }
        else if (k == 8) { col[part]++; c = 1; canon &= stage < 3; stage = 3; } else if (k == 9) { col[part]++; c = 7; canon &= stage < 3; stage = 3; }
        else if (k == 13) { canon = 0; amb = 1; }
        else { col[part]++; hex[part] = 1; c = 1000 + hv; canon &= stage < 2; stage = 3; }
    }
    int cnt[3] = {0, 0, 0};
    for (int p = 0; p < 2; p++) { int& c = p ? w.bg : w.fg; if (br[p] && !hex[p] && c >= 0) c += 8; }
    str<> code("untouched"); bool ok = settings::parse_color(t.c_str(), code); sx_obs(ok); hx_obs(code.c_str());
    if (!ok) { sx_cover("rejected"); sx_check(hx_eq(code.c_str(), "untouched"), "rejected, but the output changed");
        if (canon && n <= 2) sx_check(n == 2 && (t.length() > 0) && (strstr(t.c_str(), "bold nobold") || strstr(t.c_str(), "nobold bold") || strstr(t.c_str(), "bold bold") || strstr(t.c_str(), "nobold nobold") || strstr(t.c_str(), "underline underline") || strstr(t.c_str(), "italic italic") || strstr(t.c_str(), "reverse reverse") || strstr(t.c_str(), "on on")), "a well formed colour was rejected"); return; }
    sx_cover("accepted"); sx_check(!amb, "an ambiguous colour name was accepted"); sx_check(col[0] < 2 && col[1] < 2, "two colours for one part were accepted");
    A a = interp(code.c_str()); sx_check(same(a, w), "the colour is not the one described");
    for (int compat = 0; compat < 2; compat++) { str<> d, c2; settings::format_color(code.c_str(), d, compat); sx_check(settings::parse_color(d.c_str(), c2), "the description is not accepted"); sx_check(same(interp(c2.c_str()), w), "the description gives another colour"); if (compat) sx_check(!strchr(d.c_str(), '#'), "compatible description with 24 bit colour"); }
}
