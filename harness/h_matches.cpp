// Matches: of what generators add, what is offered for a word, once each, in order and with what belongs to it.
#include "hx.h"
#include <vector>
#include <algorithm>
#include "core/settings.h"
#include "core/path.h"
#include "core/os.h"
#include "core/str_compare.h"
#include "lib/matches.h"
#include "lib/slash_translation.h"
#include "lib/line_state.h"
#include "matches_impl.h"
#include "match_pipeline.h"
extern "C" {
#include <compat/config.h>
#include <readline/readline.h>
#include <readline/rlprivate.h>
int rl_completion_type = '\t', rl_complete_with_tilde_expansion = 0, _rl_match_hidden_files = 1, rl_end = 0; char rl_preferred_path_separator = 92; char* rl_line_buffer = (char*)"";
char* rl_last_path_separator(const char* s) { char* r = 0; for (; *s; s++) if (*s == '/' || *s == '\\') r = (char*)s; return r; }
char* __printable_part(char* s) { char* r = rl_last_path_separator(s); return r && r[1] ? r + 1 : s; }
char* _rl_savestring(const char* s) { char* r = (char*)malloc(strlen(s) + 1); strcpy(r, s); return r; }
}
setting_bool g_match_wild("match.wild", "", "", true); setting_enum g_default_bindings("clink.default_bindings", "", "", "bash,windows", 0);
// a name beginning with d is a directory, one beginning with n doesn't exist
namespace os { DWORD get_file_attributes(const char* p, bool* symlink) { if (symlink) *symlink = false; const char* l = rl_last_path_separator(p); if (l) p = l + 1; return *p == 'd' ? FILE_ATTRIBUTE_DIRECTORY : *p == 'n' ? INVALID_FILE_ATTRIBUTES : FILE_ATTRIBUTE_ARCHIVE; } }
#include "ref_wild.h"
struct Ref { char t[8]; int n; match_type type; const char* disp; const char* desc; char app; int sup, ord, in; };
static Ref R[6]; static int nr;
static match_type base(match_type t) { return t & match_type::mask; }
static bool hist(match_type t) { return int(t & match_type::fromhistory) != 0; }
static bool same(const Ref& a, const char* t, match_type ty) { return hx_eq(a.t, t) && (a.type == ty || hist(a.type) || hist(ty)); }
static const char* W[] = { "a", "b", "ab", "A", "d", "a/", "d\\", "n", "-a", "--a", "d/b", "a\\b", "ba" };
static const match_type TY[] = { match_type::none, match_type::word, match_type::file, match_type::dir, match_type::cmd, match_type::arg, match_type::alias, match_type::file | match_type::hidden, match_type::file | match_type::system, match_type::none | match_type::fromhistory, match_type::word | match_type::fromhistory };
static int fold(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int cmps(const char* a, const char* b, int cs) { for (;; a++, b++) { int x = *a, y = *b; if (cs) { x = x ? x ^ 32 : 0; y = y ? y ^ 32 : 0; } else { x = fold(x); y = fold(y); } if (x != y) return !*a ? -1 : !*b ? 1 : x < y ? -1 : 1; if (!x) return 0; } }
static int isdir(const Ref& r) { return base(r.type) == match_type::dir || (base(r.type) == match_type::none && !hist(r.type) && r.n && hx_sep(r.t[r.n - 1])); }
static int before(const Ref& a, const Ref& b, int order) { // negative: a first; 0: either
    int x = isdir(a), y = isdir(b); if (order != 1 && x != y) return order == 0 ? y - x : x - y;
    char s[8], t[8]; strcpy(s, a.t); strcpy(t, b.t); if (x && a.n > 1 && hx_sep(s[a.n - 1])) s[a.n - 1] = 0; if (y && b.n > 1 && hx_sep(t[b.n - 1])) t[b.n - 1] = 0;
    int m = 0, n = 0; while (s[m] == '-') m++; while (t[n] == '-') n++; if (m != n) return m - n;
    int c = cmps(s, t, 0); if (c) return c; c = cmps(s, t, 1); if (c) return c;
    static const int rank[] = { 0, 0, 4, 3, 5, 6, 1, 7 }; // files and matches without a type first ... directories last
    static const int rk[] = { 0, 1, 4, 3, 5, 6, 2, 7 }; (void)rank; // none, file, arg, word, command, alias, dir
    return rk[(int)base(a.type)] - rk[(int)base(b.type)];
}
static int fits(const Ref& r, const char* needle, bool wild, int sub, int star = 1) { // sub: the needle may start anywhere in the name
    if (int(r.type & match_type::system)) return 0;
    if (int(r.type & match_type::hidden) && !_rl_match_hidden_files) return 0;
    char p[8]; int n = 0; for (const char* c = needle; *c; c++) if (wild || sub || !n || !hx_sep(*c) || !hx_sep(p[n - 1])) p[n++] = *c; p[n] = 0; int m = r.n; 
    if (!wild && !sub) { for (int i = 0; i < n; i++) { if (i >= r.n) return 0; int x = p[i], y = r.t[i]; x = hx_sep(x) ? '\\' : fold(x); y = hx_sep(y) ? '\\' : fold(y); if (x != y) return 0; } return 1; }
    while (m && hx_sep(r.t[m - 1])) m--;
    if (sub) { int l = 0; for (int i = 0; i < n; i++) if (hx_sep(p[i])) l = i + 1; for (int i = n; i >= l; i--) p[i + 1] = p[i]; p[l] = '*'; n++; }
    if (star) p[n++] = '*'; p[n] = 0; int path = base(r.type) == match_type::file || base(r.type) == match_type::dir; return ref(p, n, r.t, m, 1, path ? 2 : 1, 0);
}
static int all_same_kind(const Ref* const* e, int n) { for (int i = 0; i < n; i++) if (base(e[i]->type) != match_type::file && base(e[i]->type) != match_type::dir) return 0; return 1; }
static void compare(const matches& m, const Ref* const* e, int n, int exact) {
    sx_check((int)m.get_match_count() == n, "how many are offered");
    if (!m.get_match_count()) return;
    int used = 0;
    for (int i = 0; i < n; i++) {
        const char* t = m.get_match(i); int j = i; if (!exact) { for (j = 0; j < n; j++) if (!(used >> j & 1) && hx_eq(t, e[j]->t) && m.get_match_type(i) == e[j]->type) break; sx_check(j < n, "offered but does not fit"); used |= 1 << j; }
        const Ref& r = *e[j]; sx_check(hx_eq(t, r.t), "text"); sx_check(m.get_match_type(i) == r.type, "type");
        const char* d = m.get_match_display(i); sx_check(r.disp ? d && hx_eq(d, r.disp) : !d, "display text"); d = m.get_match_description(i); sx_check(r.desc ? d && hx_eq(d, r.desc) : !d, "description");
        sx_check(m.get_match_append_char(i) == r.app, "character to append"); shadow_bool s = m.get_match_suppress_append(i); sx_check(r.sup < 0 ? !s.is_explicit() : s.is_explicit() && s.get() == !!r.sup, "whether to append"); hx_obs(t); sx_obs((sx_u64)r.type);
    }
    sx_check(!m.get_match(n) && m.get_match_type(n) == match_type::none, "beyond the end");
    int it = 0; matches_iter x = m.get_iter(); while (x.next()) { sx_check(it < n && hx_eq(x.get_match(), m.get_match(it)), "iterator"); it++; } sx_check(it == n, "iterator end");
    str<> l; m.get_lcd(l); int c = 0; for (;; c++) { int ok = 1; for (int i = 0; i < n && ok; i++) { int u = m.get_match(i)[c], v = m.get_match(0)[c]; u = hx_sep(u) ? '\\' : fold(u); v = hx_sep(v) ? '\\' : fold(v); if (!u || u != v) ok = 0; } if (!ok) break; }
    sx_check((int)l.length() == c, "common beginning");
}
extern "C" void harness_main() {
    str_compare_scope sc(1, false); settings::find("match.wild")->set(H_WILD ? "1" : "0"); settings::find("match.substring")->set(H_SUB ? "1" : "0");
    static const char* O[] = { "before", "with", "after" }; int order = H_SORT ? sx_pick(3, "order") : 1; settings::find("match.sort_dirs")->set(O[order]);
    static const char* S[] = { "off", "system", "slash", "backslash", "auto" }; int mode = H_SLASH ? sx_pick(5, "slash") : 1; settings::find("match.translate_slashes")->set(S[mode]);
    matches_impl m; match_pipeline p(m); p.reset(); char sep = 0; if (H_SLASH && mode == 4) { static const char Q[] = { 0, '/', '\\' }; sep = Q[sx_pick(3, "sep")]; } m.set_path_separator(sep); match_builder b(m);
    char use = mode == 2 ? '/' : mode == 3 ? '\\' : sep ? sep : '\\'; int none = 0, files = H_FILES ? sx_pick(3, "files") : 0; if (files) b.set_matches_are_files(files == 1);
    static const int wi[] = { H_WORDS }, ti[] = { H_TYPES };
    int k = hx_len(0, H_K, "count");
    for (int i = 0; i < k; i++) {
        const char* w = W[wi[sx_pick(sizeof(wi) / sizeof(*wi), "word")]]; match_type t = TY[ti[sx_pick(sizeof(ti) / sizeof(*ti), "type")]]; match_desc d(w, nullptr, nullptr, t); int info = H_INFO ? sx_pick(4, "info") : 0; static const char* D[] = { "x", "yy", "z" };
        if (info & 1) d.display = D[i], d.append_char = '!'; if (info & 2) d.description = "about"; 
        Ref r = {}; strcpy(r.t, w); r.n = (int)strlen(w); r.type = t; int es = hx_sep(w[r.n - 1]);
        if (es && base(t) == match_type::none && !hist(t)) r.type = (t & ~match_type::mask) | match_type::dir;
        if (base(r.type) == match_type::dir && !es) r.t[r.n++] = '\\', r.t[r.n] = 0;
        int path = base(r.type) == match_type::dir || base(r.type) == match_type::file || (base(r.type) == match_type::none && hist(r.type) && files == 1); if (mode && path) for (char* c = r.t; *c; c++) if (hx_sep(*c)) *c = use;
        int dup = 0; for (int j = 0; j < nr; j++) dup |= same(R[j], r.t, r.type);
        sx_check(b.add_match(d) == !dup, "added"); if (dup) { sx_cover("duplicate"); continue; }
        r.disp = d.display; r.desc = d.description; r.app = d.append_char; r.sup = base(t) == match_type::arg && (w[r.n - 1] == ':' || w[r.n - 1] == '=') ? 1 : -1; r.ord = nr; R[nr++] = r;
    }
    sx_check(!b.add_match("", match_type::word), "empty match"); sx_check(b.is_empty() == !nr, "empty"); m.done_building();
    if (files != 2) for (int i = nr; i--;) if (base(R[i].type) == match_type::none && !hist(R[i].type)) {
        Ref& r = R[i]; none = 1; const char* l = rl_last_path_separator(r.t); int dir = (l ? l + 1 : r.t)[0] == 'd'; r.type = dir ? match_type::dir : match_type::file; if (dir) r.t[r.n++] = use, r.t[r.n] = 0, sx_cover("directory");
        int dup = 0; for (int j = 0; j < nr; j++) dup |= j != i && same(R[j], r.t, r.type); if (dup) { for (int j = i + 1; j < nr; j++) R[j - 1] = R[j]; nr--; sx_cover("became duplicate"); }
    }
    { const Ref* e[6]; for (int i = 0; i < nr; i++) e[i] = R + i; compare(m, e, nr, 1); }
    int nosort = H_SORT ? sx_pick(2, "nosort") : 0; if (nosort) b.set_no_sort();
    if (H_RESTRICT) { // only what fits the pattern stays at all
        int n = hx_len(1, H_N, "n"); char* pat = hx_alpha<char>(n, H_ALPHA, "pattern"); int keep[6], c = 0; str<> nd(pat); p.restrict(nd); int cut = 0; while (pat[cut] && pat[cut] != '*' && pat[cut] != '?') cut++; sx_check((int)nd.length() == cut && hx_eqn(nd.c_str(), pat, cut), "word without wildcards");
        for (int sub = 0; sub < 2 && !c; sub++) { if (sub && (!H_SUB || *pat == '*')) break; for (int i = 0; i < nr; i++) if (fits(R[i], pat, true, sub, 0)) keep[c++] = i; } for (int i = 0; i < c; i++) R[i] = R[keep[i]]; if (c < nr) sx_cover("removed"); nr = c;
        const Ref* e[6]; for (int i = 0; i < nr; i++) e[i] = R + i; compare(m, e, nr, 0);
        int k = hx_len(0, H_N, "k"); char* it = hx_alpha<char>(k, H_ALPHA, "iterate"); int want[6], w = 0; for (int sub = 0; sub < 2 && !w; sub++) { if (sub && (!H_SUB || !k || *it == '*')) break; for (int i = 0; i < nr; i++) if (fits(R[i], it, true, sub, 0)) want[w++] = i; }
        matches_iter x = m.get_iter(it); int got = 0, any = 0, all = 1; while (x.next()) { int j = 0; for (; j < w; j++) if (hx_eq(R[want[j]].t, x.get_match()) && R[want[j]].type == x.get_match_type()) break; sx_check(j < w, "iterated but does not fit"); got++; int f = base(x.get_match_type()) == match_type::file || base(x.get_match_type()) == match_type::dir; any |= f; all &= f; hx_obs(x.get_match()); sx_cover("iterated"); } sx_check(got == w, "fits but was not iterated");
        sx_check(x.is_filename_display_desired().get() == (files ? files == 1 : any && all), "iterated as files"); }
    for (int round = 0; round < H_ROUNDS; round++) {
        int n = hx_len(0, H_N, "n"); char* needle = hx_alpha<char>(n, H_ALPHA, "needle"); const Ref* e[6]; int c = 0;
        for (int sub = 0; sub < 2 && !c; sub++) { if (sub) { if (!H_SUB || !n || *needle == '*') break; int stop = 0; if (!H_WILD) for (int i = 0; i < n; i++) { if (needle[i] == '?' || (needle[i] == '*' && i + 1 < n && needle[i + 1] != '*')) stop = 1; } if (stop) break; sx_cover("substring"); } for (int i = 0; i < nr; i++) if (fits(R[i], needle, H_WILD, sub)) e[c++] = R + i; }
        if (c < nr) sx_cover("left out");
        p.select(needle); compare(m, e, c, 0); if (c) { int pk = all_same_kind(e, c); sx_check(m.is_filename_display_desired().get() == (files ? files == 1 : pk), "shown as files"); }
        p.sort(); if (c > 1) { // any order that keeps equal ones in any order
            int exact = 1; std::sort(e, e + c, [&](const Ref* a, const Ref* b) { return nosort ? a->ord < b->ord : before(*a, *b, order) < 0; }); for (int i = 1; i < c && !nosort; i++) if (!before(*e[i - 1], *e[i], order)) exact = 0;
            compare(m, e, c, exact); if (!exact) sx_cover("ties"); else sx_cover("sorted"); }
        else compare(m, e, c, 1);
        free(needle);
    }
    matches_impl o; 
    if (H_INFO) { std::vector<Ref> was; int n = m.get_match_count(); std::vector<str_moveable> ts; for (int i = 0; i < n; i++) ts.emplace_back(m.get_match(i));
        if (sx_pick(2, "copy")) { o.copy(m); sx_check((int)m.get_match_count() == n, "source of a copy"); sx_cover("copied"); } else { o.transfer(m); sx_check(m.get_match_count() == 0, "source of a transfer"); sx_cover("transferred"); }
        sx_check((int)o.get_match_count() == n, "count of the copy"); for (int i = 0; i < n; i++) { sx_check(hx_eq(o.get_match(i), ts[i].c_str()), "text of the copy"); int j = 0; for (; j < nr; j++) if (hx_eq(R[j].t, o.get_match(i)) && R[j].type == o.get_match_type(i)) break; sx_check(j < nr, "copied match"); const char* d = o.get_match_display(i); sx_check(R[j].disp ? d && hx_eq(d, R[j].disp) : !d, "copied display"); d = o.get_match_description(i); sx_check(R[j].desc ? d && hx_eq(d, R[j].desc) : !d, "copied description"); sx_check(o.get_match_append_char(i) == R[j].app, "copied character"); }
        match_pipeline(m).reset(); match_builder b2(m); b2.add_match("q", match_type::word); for (int i = 0; i < n; i++) sx_check(hx_eq(o.get_match(i), ts[i].c_str()), "the copy is its own"); }
    sx_cover("end");
}
