// Suggestions: only one that goes on from the line is shown, and accepting it (whole or by words) inserts what is shown.
#include "hx.h"
#include <stdio.h>
#include <wchar.h>
#include "core/settings.h"
#include "line_buffer.h"
#include "rl/rl_buffer.h"
#include "line_state.h"
#include "suggestions.h"
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/history.h>
#include <readline/rlprivate.h>
int rl_ding(void) { return 0; } int rl_clear_message(void) { return 0; } void clear_suggestion_list_index(void) {} int get_suggestion_list_selected_history_index(int* p) { *p = -1; return 0; }
void suppress_sticky_search_position(void) {} double os_clock(void) { return 0; }
static int width_of(char32_t) { return 1; } int (*wcwidth)(char32_t) = width_of; int _rl_utf8locale; static void redraw() {}
size_t mbrtowc(wchar_t* w, const char* s, size_t n, mbstate_t*) { if (!n) return (size_t)-2; if (w) *w = (unsigned char)*s; return sx_conc(*s != 0); } size_t mbrlen(const char* s, size_t n, mbstate_t*) { return !n ? (size_t)-2 : sx_conc(*s != 0); }
}
bool cua_clear_selection() { return false; } bool cua_set_selection(int, int) { return false; } int cua_get_anchor() { return -1; }
bool is_suggestion_list_active(bool) { return false; } bool is_suggestion_list_enabled() { return false; } uint32 get_suggestion_list_height() { return 0; } bool can_show_suggestion_hint() { return false; } const char* get_suggestion_hint_text() { return ""; }
setting_enum g_ignore_case("match.ignore_case", "x", "x", "off,on,relaxed", 0); setting_bool g_fuzzy_accent("match.fuzzy_accent", "x", "x", false);
line_buffer* g_rl_buffer; int host_remove_dir_history(int) { return 0; } int host_remove_history(int, const char*) { return 0; }
enum { MAX = 16 };
static int nocase, orig_case; static char L[MAX], S[MAX], F[MAX], prev[8][MAX]; static int n, m, o, e, live, changed;
static char letter(const char* name) { char c; sx_sym(&c, 1, name); int ok = 0; for (const char* a = H_ALPHA; *a; a++) ok |= c == *a; sx_assume(ok); return c; }
static int fold(char c) { return nocase && c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int same(const char* a, const char* b) { size_t k = strlen(a); if (strlen(b) != k) return 0; int ok = 1; for (size_t i = 0; i < k; i++) ok &= a[i] == b[i]; return ok; }
static int goes_on() { if (!live || o > n || m < n - o) return 0; for (int i = o; i < n; i++) if (fold(L[i]) != fold(S[i - o])) return 0; return 1; }
static int blank(char c) { return c == ' ' || c == '\t'; }
static int alnum(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
extern "C" void harness_main() {
    rl_redisplay_function = redraw; rl_line_buffer_len = 64; rl_line_buffer = (char*)malloc(64); rl_line_buffer[0] = 0; rl_editing_mode = emacs_mode; rl_undo_list = 0; using_history();
    static rl_buffer buffer; g_rl_buffer = &buffer; buffer.begin_line(); settings::find("autosuggest.inline")->set("true");
    nocase = sx_pick(2, "ignore-case"); if (nocase) g_ignore_case.set("on"); orig_case = sx_pick(2, "original-case"); if (!orig_case) settings::find("autosuggest.original_case")->set("false");
    n = sx_pick(H_N + 1, "line-length"); for (int i = 0; i < n; i++) L[i] = letter("line"); L[n] = 0; buffer.insert(L); rl_free_undo_list(); rl_undo_list = 0;
    m = 1 + sx_pick(H_M, "suggestion-length"); for (int i = 0; i < m; i++) S[i] = letter("suggestion"); S[m] = 0;
    o = sx_pick(n + 1, "offset"); e = o + sx_pick(n + 1 - o, "end-word"); int q = 0; for (int i = 0; i < e; i++) q ^= L[i] == '"'; sx_assume(q == (e && L[e - 1] == 34));
    static suggestion_manager M; { suggestions s; s.set_line(L); s.add(S, o, "history", -1, -1, "", -1); M.set(L, e, &s); }
    live = 1; live = goes_on(); int fresh = 1; if (H_EDIT) sx_assume(!live || m > n - o);
    for (int k = 0; k < H_K; k++) {
        if (int edit = H_EDIT && !k ? sx_pick(4, "edit") : 0) {       // the line changes before another suggestion comes
            if (edit == 1) { char c[2] = { letter("typed"), 0 }; buffer.insert(c); L[n++] = c[0]; L[n] = 0; } else if (!n) sx_assume(0);
            else if (edit == 2) { buffer.remove(n - 1, n); L[--n] = 0; } else { buffer.set_cursor(n - 1); sx_check(!M.insert(suggestion_action(sx_pick(3, "action"))), "nothing is accepted before the end of the line"); sx_check(same(rl_line_buffer, L), "line before the end"); sx_cover("not at end"); return; }
            rl_free_undo_list(); rl_undo_list = 0; fresh = 0; sx_cover("edited"); }
        int on = goes_on(); str<> out; char want[MAX * 2]; strcpy(want, L); if (on) strcat(want, S + n - o);
        int shown = M.get_visible(out); sx_check(shown == on, "shown when it goes on from the line"); if (shown) { sx_check(same(out.c_str(), want), "shown is the line and the rest of the suggestion"); sx_cover("shown"); }
        int action = sx_pick(3, "action"), more = on && m > n - o; int en = e < n ? e : n, from = orig_case ? action == 0 && !o ? 0 : en > o ? en : o : n;
        strcpy(F, L); if (on) strcpy(F + from, S + from - o); int end = (int)strlen(F), p = end;
        if (more && action) { p = n; if (action == 2) { int quoted = 0; for (int i = 0; i < n; i++) quoted ^= L[i] == '"'; while (blank(F[p])) p++; for (; F[p]; p++) { if (F[p] == '"') quoted = !quoted; else if (!quoted && blank(F[p])) break; } } else { while (F[p] && !alnum(F[p])) p++; while (alnum(F[p])) p++; } }
        F[p] = 0; int ok = M.insert(suggestion_action(action));
        sx_check(rl_point == rl_end && rl_end == (int)strlen(rl_line_buffer), "cursor at the end");
        if (!more) { sx_check(!ok || on, "nothing to accept"); if (on) { sx_check(rl_end == n, "length"); for (int i = 0; i < n; i++) sx_check(fold(rl_line_buffer[i]) == fold(L[i]), "text"); sx_check(!ok || !fresh, "nothing left to accept"); } else sx_check(same(rl_line_buffer, L), "line without a suggestion"); sx_cover(on ? "nothing left" : "mismatch"); break; }
        sx_check(ok, "accepted"); sx_check(same(rl_line_buffer, F), action == 0 ? "whole suggestion" : action == 1 ? "next word" : "next full word"); for (int i = 0; i < rl_end; i++) sx_obs((unsigned char)rl_line_buffer[i]);
        strcpy(prev[changed++], L); strcpy(L, F); n = p; fresh = 1; if (p == end) { live = 0; sx_cover("finished"); } else sx_cover("partly");
    }
    while (changed) { rl_do_undo(); sx_check(same(rl_line_buffer, prev[--changed]), "undo takes the last accepted part back"); sx_cover("undone"); }
    sx_cover("end");
}
