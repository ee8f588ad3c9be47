// Completing a word: what is put into the line, for every set of matches; and undo takes it back.
#include "hx.h"
#include <stdio.h>
#include <wchar.h>
#include "core/str_compare.h"
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/history.h>
#include <readline/rlprivate.h>
static int g_ding, g_rowed; int rl_ding(void) { g_ding++; return 0; } int rl_clear_message(void) { return 0; } void clear_suggestion_list_index(void) {} int get_suggestion_list_selected_history_index(int* p) { *p = -1; return 0; }
void suppress_sticky_search_position(void) {} double os_clock(void) { return 0; } void lock_against_suggestions(int) {} int _rl_display_matches_prompted; void display_matches(char**) { g_rowed++; }
static int width_of(char32_t) { return 1; } int (*wcwidth)(char32_t) = width_of; int _rl_utf8locale; static void redraw() {}
size_t mbrtowc(wchar_t* w, const char* s, size_t n, mbstate_t*) { if (!n) return (size_t)-2; if (w) *w = (unsigned char)*s; return sx_conc(*s != 0); } size_t mbrlen(const char* s, size_t n, mbstate_t*) { return !n ? (size_t)-2 : sx_conc(*s != 0); }
}
#ifndef H_FOLD
#define H_FOLD 0
#endif
enum { MAX = 48, ML = 8, WM = 3 };
static const char ALPHA[] = H_ALPHA; static char M[4][ML + 2]; static int n_matches, dirs, files, typed;
static const char QUOTED[] = " &()[]{}^=;!%'+,`~";      // what CMD quotes
static int special(char c) { int r = 0; for (const char* q = QUOTED; *q; q++) r |= c == *q; return r; }
static int has_special(const char* t) { for (; *t; t++) if (special(*t)) return 1; return 0; }
static int fold(char c) { return H_FOLD ? (c >= 'A' && c <= 'Z' ? c + 32 : c == '_' ? '-' : c) : c; }
static char pre[16];
static int is_dir(const char* t) { size_t n = strlen(t); return n && t[n - 1] == '\\'; }
static int ends(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) if (fold(a[i]) != fold(b[i])) return 0; return 1; }
static int exact(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }
// What an application gives: the word itself, then the matches.
static char** attempt(const char* text, int, int) {
    rl_attempted_completion_over = 1; rl_filename_completion_desired = files; if (!n_matches) return 0;
    char** r = (char**)malloc(sizeof(char*) * 8); r[0] = strdup(text); for (int i = 0; i < n_matches; i++) r[i + 1] = strdup(M[i]); r[n_matches + 1] = 0; return r; }
static int type_of(const char* m) { return files ? is_dir(m) ? MATCH_TYPE_DIR : MATCH_TYPE_FILE : MATCH_TYPE_WORD; }
// Clink says where the word begins; behind a quote it is in quotes.
static char where(char, int* found, int* delimiter) { rl_point = (int)strlen(pre); char c = rl_point ? rl_line_buffer[rl_point - 1] == '"' ? '"' : 0 : 0; *found = c ? RL_QF_DOUBLE_QUOTE : 0; *delimiter = 0; return c; }
static int lcd_of(const char* a, const char* b) { return str_compare<char, true>(a, b); }
static int quote_behind; static char letter(const char* name) { char c; sx_sym(&c, 1, name); int ok = 0; for (const char* a = ALPHA; *a; a++) ok |= c == *a; sx_assume(ok); return quote_behind ? (char)sx_conc((unsigned char)c) : c; }
static char W[WM + 1], post[8], line0[MAX]; static int open_quote, at_end, mark_dirs;
static char want[MAX]; static int want_point;
static void put(const char* t) { strcat(want, t); }
// The word becomes T, in quotes if it has characters that need them (or what may follow has); finished: closed, and a space behind it.
static void word(const char* t, int quote, int finished) {
    strcpy(want, pre); int q = open_quote; if (!q && quote && *t) { put("\""); q = 1; }
    char u[ML + 2]; strcpy(u, t); int dir = finished && files && is_dir(t), end = at_end;
    if (!mark_dirs && *u) { int same = strlen(u) == strlen(W) && ends(u, W, strlen(u)); if (!same && *u) { size_t n = strlen(u); while (n && u[n - 1] == '\\') u[--n] = 0; } }
    put(u); if (finished && !dir && end) { size_t n = strlen(want); if (q && want[n - 1] != '"') put("\""); put(" "); }
    want_point = (int)strlen(want); put(post); }
static int same(const char* a, const char* b) { size_t n = strlen(a); if (strlen(b) != n) return 0; int ok = 1; for (size_t i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
static void check(const char* what) { sx_traces("line", rl_line_buffer, 1); sx_traces("want", want, 1); sx_check(same(rl_line_buffer, want), what); sx_check(rl_end == (int)strlen(want), "length of the line"); sx_check(rl_point == want_point, "cursor behind what was put in"); for (const char* p = rl_line_buffer; *p; p++) sx_obs((unsigned char)*p); }
static void lcd(char* o, int* quote) {
    int n = (int)strlen(M[0]); for (int i = 1; i < n_matches; i++) { int k = 0; while (k < n && M[i][k] && fold(M[i][k]) == fold(M[0][k])) k++; n = k; }
    int from = 0, w = (int)strlen(W); if (w > n) w = n; for (int i = 0; i < n_matches && n_matches > 1 && H_FOLD; i++) if (exact(M[i], W, w)) { from = i; break; }
    memcpy(o, M[from], n); o[n] = 0; *quote = has_special(o); if (n_matches > 1) for (int i = 0; i < n_matches; i++) if (special(M[i][n])) *quote = 1; }
static void undo() { while (rl_undo_list) rl_do_undo(); sx_check(same(rl_line_buffer, line0), "undo gives the line back"); sx_cover("undone"); }
extern "C" void harness_main() {
    rl_redisplay_function = redraw; rl_line_buffer_len = 64; rl_line_buffer = (char*)malloc(64); rl_line_buffer[0] = 0; rl_editing_mode = emacs_mode; using_history();
    rl_attempted_completion_function = attempt; rl_lookup_match_type = type_of; rl_compare_lcd_func = lcd_of; rl_adjust_completion_word = where; rl_backslash_path_sep = 1; rl_preferred_path_separator = '\\'; rl_completer_quote_characters = "\""; rl_basic_quote_characters = "\""; rl_filename_quote_characters = QUOTED; rl_completer_word_break_characters = " \t\n\"'`@><=;|&{(,"; rl_ignore_completion_duplicates = 0; rl_sort_completion_matches = 0; rl_outstream = stdout;
    _rl_completion_case_fold = H_FOLD; _rl_complete_mark_directories = mark_dirs = H_DIRS ? sx_pick(2, "mark-directories") : 1; _rl_menu_complete_wraparound = 1; str_compare_scope sc(H_FOLD ? str_compare_scope::relaxed : str_compare_scope::exact, false);
    static const char* const PRE[] = { "", "e ", "e \"", "\"a b\" ", "\"" }; int p = sx_pick(5, "before"); strcpy(pre, PRE[p]); open_quote = p == 2 || p == 4;
    static const char* const POST[] = { "", " z", "\"" }; int s = sx_pick(open_quote ? 3 : 2, "behind"); strcpy(post, POST[s]); at_end = !s; quote_behind = s == 2;
    int w = sx_pick(H_W + 1, "typed"); for (int i = 0; i < w; i++) { W[i] = letter("typed-letter"); sx_assume(open_quote || (W[i] != ' ' && W[i] != '&')); }
    files = sx_pick(2, "files"); n_matches = H_MIN + sx_pick(H_N + 1 - H_MIN, "matches");
    for (int i = 0; i < n_matches; i++) { int k = w + sx_pick(H_L + 1, "more"); for (int j = 0; j < k; j++) { M[i][j] = j < w && !H_FOLD ? W[j] : letter("of-match"); if (j < w) sx_assume(fold(M[i][j]) == fold(W[j])); } if (H_DIRS && sx_pick(2, "directory")) M[i][k++] = '\\'; M[i][k] = 0; sx_assume(k > 0); for (int j = 0; j < i; j++) sx_assume(!hx_eq(M[i], M[j])); }
    rl_insert_text(pre); rl_insert_text(W); int at = rl_point; rl_insert_text(post); rl_point = at; strcpy(line0, rl_line_buffer); rl_free_undo_list(); rl_undo_list = 0;
    char l[ML + 2]; int q = 0; if (n_matches) lcd(l, &q); g_ding = 0;
    strcpy(want, line0); want_point = at;
    if (H_MODE == 0) {      // complete
        rl_complete_internal(TAB); if (!n_matches) { check("without a match nothing changes"); sx_check(g_ding == 1, "without a match it rings"); sx_cover("none"); }
        else if (n_matches == 1) { word(l, q, 1); check("the match"); sx_cover("one"); } else { if (*l) word(l, q, 0); check("what the matches have in common"); sx_cover("several"); }
        undo();
    } else if (H_MODE == 1) {      // insert all of them
        rl_complete_internal('*'); if (n_matches) { strcpy(want, pre); if (open_quote) want[strlen(want) - 1] = 0; for (int i = 0; i < n_matches; i++) { int k = has_special(M[i]); if (k) put("\""); put(M[i]); put(k ? "\" " : " "); } want_point = (int)strlen(want); put(post); } check("all matches"); undo();
    } else {      // go through them
        int i = 0; for (int k = 0; k < H_K; k++) {
            int back = sx_pick(2, "direction"); rl_last_func = k ? H_MODE == 2 ? rl_old_menu_complete : rl_menu_complete : 0; rl_undo_list = k ? rl_undo_list : 0;
            (H_MODE == 2 ? rl_old_menu_complete : rl_menu_complete)(back ? -1 : 1, 0); if (!n_matches) { check("without a match nothing changes"); continue; }
            if (n_matches == 1) { word(M[0], has_special(M[0]), 1); check("the only match"); sx_cover("one"); if (H_MODE != 2) break; continue; }
            int n = n_matches + 1; i = (i + (back ? n - 1 : 1)) % n; const char* first = H_MODE == 2 ? W : l;
            if (i) { word(M[i - 1], has_special(M[i - 1]), 1); check("the next match"); sx_cover("several"); } else if (*first || k) { word(first, has_special(first), 0); check("back to what was typed"); sx_cover("around"); }
        }
        undo();
    }
    sx_cover("end");
}
