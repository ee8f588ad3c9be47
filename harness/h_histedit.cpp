// Going through the history while editing: each line keeps its own edits and its own undo, and the line being typed comes back.
#include "hx.h"
#include <stdio.h>
#include <wchar.h>
#include "rl/rl_buffer.h"
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/history.h>
#include <readline/rlprivate.h>
void readline_common_teardown(void); void _rl_set_the_line(void); extern int _rl_revert_all_at_newline; extern HIST_ENTRY* _rl_saved_line_for_history; void _rl_start_using_history(void); int rl_add_history(int, int); int rl_remove_history(int, int); int rl_fetch_history(int, int); void rl_clear_history(void); extern int _rl_history_preserve_point;
static int g_ding; int rl_ding(void) { g_ding++; return 0; } int rl_clear_message(void) { return 0; } void clear_suggestion_list_index(void) {} int get_suggestion_list_selected_history_index(int* p) { *p = -1; return 0; } 
void suppress_sticky_search_position(void) {} double os_clock(void) { return 0; } int rl_history_search_backward(int, int); int rl_history_search_forward(int, int); int rl_history_substr_search_backward(int, int); int rl_history_substr_search_forward(int, int); extern int _rl_search_case_fold; void lock_against_suggestions(int) {}
static int width_of(char32_t) { return 1; } int (*wcwidth)(char32_t) = width_of; int _rl_utf8locale; static void redraw() {}
size_t mbrtowc(wchar_t* w, const char* s, size_t n, mbstate_t*) { if (!n) return (size_t)-2; if (w) *w = (unsigned char)*s; return *s != 0; } size_t mbrlen(const char* s, size_t n, mbstate_t*) { return !n ? (size_t)-2 : *s != 0; }
}
#ifndef H_FOLD
#define H_FOLD 0
#endif
#ifndef H_LEN
#define H_LEN i % H_T + 1
#endif
#ifndef H_FIX
#define H_FIX -1
#endif
enum { MAX = 12, ENTRIES = 8, STATES = 12 };
// A line and the texts it had before its edits, which undo gives back.
struct Text { char t[MAX + 1]; };
struct Line { Text s[STATES]; int n; };      // s[n-1] is the text now, s[0] the first one
static Line E[ENTRIES], cur, saved; static int N, at, has_saved; static int g_cut;
static int eq(const char* a, const char* b) { size_t n = strlen(a); if (n != strlen(b)) return 0; int r = 1; for (size_t i = 0; i < n; i++) r &= a[i] == b[i]; return r; }
static char* now(Line& l) { return l.s[l.n - 1].t; }
static Line line_of(const char* t) { Line l = {}; strcpy(l.s[0].t, t); l.n = 1; return l; }
static void changed(const char* t) { if (strlen(t) == strlen(now(cur))) return; if (cur.n == STATES || strlen(t) > MAX) { sx_cut("many edits"); return; } strcpy(cur.s[cur.n++].t, t); }
// Undo gives a text that was there before; runs of typed characters may go together.
static int undone(int all) {
    int j; if (all) { sx_check(eq(rl_line_buffer, cur.s[0].t), "reverting gives the first text"); cur.n = 1; sx_check(!rl_undo_list, "nothing is left to undo"); return 1; }
    if (cur.n == 1) { sx_check(eq(rl_line_buffer, now(cur)), "nothing to undo"); return 1; }
    for (j = cur.n - 2; j >= 0 && !eq(rl_line_buffer, cur.s[j].t); j--) {}
    sx_check(j >= 0, "undo gives an earlier text of this line"); cur.n = j + 1; sx_cover("undone"); return 1; }
static void keep() { if (at < N) E[at] = cur; }
static void back(int count) { if (!N) return; if (!at) return; if (!has_saved) { has_saved = 1; saved = cur; } keep(); at = count > at ? 0 : at - count; cur = E[at]; }
static void unsave() { at = N; if (has_saved) { cur = saved; has_saved = 0; } }
static void forth(int count) { if (at + count >= N) { keep(); unsave(); } else { keep(); at += count; cur = E[at]; } }
static void compare() {
    sx_check(eq(rl_line_buffer, now(cur)), "the line"); sx_check(rl_end == (int)strlen(now(cur)), "length of the line"); sx_check(rl_point >= 0 && rl_point <= rl_end && rl_mark >= 0 && rl_mark <= rl_end, "cursor in the line");
    sx_check(history_length == N, "number of lines"); sx_check(where_history() == at, "place in the history"); }
static void history_is(int i, const char* t, const char* what) { HIST_ENTRY** l = history_list(); sx_check(l && l[i] && eq(l[i]->line, t), what); }
static void begin() { rl_line_buffer[0] = 0; rl_point = rl_end = rl_mark = 0; rl_undo_list = 0; _rl_start_using_history(); cur = line_of(""); at = N; has_saved = 0; }
static void newline() {
    char t[MAX + 1]; strcpy(t, now(cur)); readline_common_teardown(); sx_check(eq(rl_line_buffer, t), "the line that was accepted"); sx_check(!rl_undo_list, "an accepted line has no undo");
    // The line of the history that was edited is itself again; all of them with revert-all-at-newline.
    for (int i = 0; i < N; i++) { if (_rl_revert_all_at_newline || i == at) { E[i].n = 1; } history_is(i, now(i == at ? E[i] : E[i]), "the history after a line was accepted"); }
    begin(); }
// Searching for what is between the start of the line and the cursor; going on in the same way searches for the same, and shows no line twice in a row.
static struct { int part, pos, len, any; char t[MAX + 1], last[MAX + 1]; } S; static int fold(int c) { return _rl_search_case_fold && c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int holds_at(const char* l, const char* t) { for (; *t; l++, t++) if (fold(*l) != fold(*t)) return 0; return 1; }
static int holds(const char* l, const char* t, int part) { for (;; l++) { if (holds_at(l, t)) return 1; if (!part || !*l) return 0; } }
static void search(int part, int dir, int going_on) {
    if (!going_on) { S.part = part; S.pos = at; S.len = rl_point; S.any = 0; memcpy(S.t, rl_line_buffer, rl_point); S.t[rl_point] = 0; sx_assume(*S.t != '^'); }
    static rl_command_func_t* const F[] = { rl_history_search_backward, rl_history_search_forward, rl_history_substr_search_backward, rl_history_substr_search_forward };
    int f = part * 2 + (dir > 0); rl_last_func = going_on ? F[part * 2] : 0; g_ding = 0; char before[MAX + 1]; strcpy(before, rl_line_buffer); F[f](1, 0);
    if (!S.len) { if (dir < 0) back(1); else forth(1); return; }
    int i = S.pos + dir, same = 0; for (; i >= 0 && i < N; i += dir) if (holds(now(E[i]), S.t, part)) { if (S.any && eq(now(E[i]), S.last)) same = 1; else break; }
    if (i < 0 || i >= N) { if (same) { sx_check(eq(rl_line_buffer, before), "only the same line is left"); i = where_history(); sx_check(i == at || (i < N && eq(now(E[i]), S.last)), "only the same line is left"); if (i != at) { if (i < at) back(at - i); else forth(i - at); } S.pos = i; } else { sx_check(g_ding == 1, "nothing is found"); sx_cover("not found"); } return; }
    strcpy(S.last, now(E[i])); S.any = 1; S.pos = i; if (i < at) back(at - i); else if (i > at) forth(i - at); sx_cover("found");
    sx_check(rl_point >= 0 && rl_point <= rl_end && (part ? holds_at(rl_line_buffer + rl_point, S.t) : rl_point == S.len), "cursor at what was found");
}
// Incremental search: a string that grows, from a place that moves to what was found.
#ifdef H_ISEARCH
enum { IKEYS = H_ISEARCH };
static struct { int dir, p, x, keys, any, point, wait; const char* l[ENTRIES + 1]; char s[MAX + 1], last[MAX + 1]; int had; char prev[MAX + 1]; } I;
static int found_in(const char* l, int from, int dir, int first) { int n = (int)strlen(I.s), len = (int)strlen(l); if (!first) from = dir < 0 ? len - n : 0; for (int j = from; j >= 0 && j <= len; j += dir) if (j + n <= len && holds_at(l + j, I.s)) return j; return -1; }
static void look(int step) {
    if (*I.s) { int j, q = I.p; if ((j = found_in(I.l[q], I.x + (step ? I.dir : 0), I.dir, 1)) < 0) for (q += I.dir; q >= 0 && q <= N; q += I.dir) if (!(I.any && eq(I.prev, I.l[q])) && strlen(I.s) <= strlen(I.l[q]) && (j = found_in(I.l[q], 0, I.dir, 0)) >= 0) break;
        if (j >= 0) { I.p = q; I.x = j; I.any = 1; strcpy(I.prev, I.l[q]); sx_cover("incremental"); return; } }
    I.wait = 1; sx_cover("failing"); }      // the bell rings, and what was found stays
static void shown() { if (I.wait == 1) sx_check(g_ding > 0, "nothing more is found"); if (I.keys) { sx_check(eq(rl_line_buffer, I.l[I.p]), "the line that was found"); sx_check(rl_point == I.x, "where it was found"); } sx_check(rl_point >= 0 && rl_point <= rl_end, "cursor in the line"); I.wait = 0; g_ding = 0; }
extern "C" int rl_read_key() {
    shown(); int k = I.keys++ < IKEYS ? sx_pick(8, "key") : 5; size_t n = strlen(I.s);
    switch (k) {
    case 0: case 1: case 2: I.s[n] = "abc"[k]; I.s[n + 1] = 0; look(0); return "abc"[k];
    case 3: case 4: if ((k == 3 ? -1 : 1) == I.dir) { if (!n) { if (!I.had) return k == 3 ? 'R' - 64 : 'S' - 64; strcpy(I.s, I.last); look(0); } else look(1); } else { I.dir = -I.dir; look(0); } return k == 3 ? 'R' - 64 : 'S' - 64;
    case 5: I.keys = 100; return 27;
    case 6: I.keys = 101; return 'G' - 64;
    default: if (n) I.s[n - 1] = 0; look(0); return 127; }
}
extern "C" { int _rl_read_mbstring(int c, char* mb, int) { mb[0] = (char)c; mb[1] = 0; return c; } void rl_message(const char*, ...) {} void rl_save_prompt() {} void rl_restore_prompt() {} int _rl_input_available() { return 0; } int _rl_nchars_available() { return 0; } int _rl_pushed_input_available() { return 0; } void _rl_optimize_redisplay() {} int rl_reverse_search_history(int, int); int rl_forward_search_history(int, int); extern Keymap _rl_keymap; int rl_abort(int, int) { return 0; } }
static void isearch(int dir) {
    rl_executing_keyseq = (char*)malloc(16); _rl_executing_keyseq_size = 16; rl_key_sequence_length = 0; static KEYMAP_ENTRY_ARRAY km; for (int i = 0; i < KEYMAP_SIZE; i++) { km[i].type = ISFUNC; km[i].function = i >= 32 && i < 127 ? rl_insert : 0; } km['R' - 64].function = rl_reverse_search_history; km['S' - 64].function = rl_forward_search_history; km[127].function = rl_rubout; km['G' - 64].function = rl_abort; _rl_keymap = km;
    keep(); for (int i = 0; i < N; i++) I.l[i] = now(E[i]); I.l[N] = at == N ? now(cur) : now(saved); I.dir = dir; I.p = at; I.x = I.point = rl_point; I.keys = 0; I.any = 0; *I.s = 0; I.wait = 0; g_ding = 0; int start = at;
    rl_reverse_search_history(-dir, 0);
    if (I.keys == 101) { rl_point = rl_end < I.point ? rl_end : rl_point; sx_check(rl_point == I.point, "cursor after giving up"); sx_cover("given up"); return; }
    I.had = 1; strcpy(I.last, I.s); sx_check(rl_point == I.x, "cursor at what was found"); if (I.p < start) back(start - I.p); else if (I.p > start) forth(I.p - start); sx_cover("taken");
}
#endif
bool cua_clear_selection() { return false; } bool cua_set_selection(int, int) { return false; } int cua_get_anchor() { return -1; } static rl_buffer g_buffer;
extern "C" void harness_main() {
    _rl_revert_all_at_newline = sx_pick(2, "revert-all"); rl_redisplay_function = redraw; rl_line_buffer_len = 64; rl_line_buffer = (char*)malloc(64); _rl_set_the_line(); rl_editing_mode = emacs_mode; using_history();
    N = sx_pick(H_N + 1, "lines"); for (int i = 0; i < N; i++) { char t[H_T + 1]; int n = H_LEN; for (int j = 0; j < n; j++) { t[j] = (char)sx_int(1, 127, "char"); } t[n] = 0; add_history(t); E[i] = line_of(t); }
    begin(); int last = -1; _rl_search_case_fold = H_FOLD; static const int ops[] = { H_OPS };
    static const int fix[] = { H_FIX }; int NF = fix[0] < 0 ? 0 : (int)(sizeof(fix) / sizeof(*fix));      // some commands first
    for (int k = 0; k < H_K + NF; k++) {
        int op = k < NF ? fix[k] : ops[sx_pick(sizeof(ops) / sizeof(*ops), "command")]; char t[MAX + 3]; rl_explicit_arg = 0; rl_last_func = 0;
        int again = op >= 16 && op < 20 && last >= 16 && last < 20 && (op >= 18) == (last >= 18); if (!again) { rl_point = op >= 16 && op < 20 && rl_end > 1 && sx_pick(2, "cursor") ? 1 : rl_end; } last = op;
        switch (op) {
        case 16: case 17: case 18: case 19: search(op >= 18, op & 1 ? 1 : -1, again); break;
#ifdef H_ISEARCH
        case 20: case 21: isearch(op == 20 ? -1 : 1); break;
#endif
        case 0: { char c[2] = { (char)sx_int(1, 127, "typed"), 0 }; rl_insert_text(c); strcpy(t, now(cur)); strcat(t, c); changed(t); break; }
        case 1: { char c[3] = { (char)sx_int(1, 127, "pasted"), 'y', 0 }; rl_insert_text(c); strcpy(t, now(cur)); strcat(t, c); changed(t); break; }
        case 2: strcpy(t, now(cur)); if (*t) t[strlen(t) - 1] = 0; rl_rubout(1, 0); changed(t); break;
        case 3: rl_undo_command(1, 0); undone(0); break;
        case 4: rl_revert_line(1, 0); undone(1); break;
        case 5: case 6: rl_get_previous_history(op - 4, 0); back(op - 4); break;
        case 7: case 8: rl_get_next_history(op - 6, 0); forth(op - 6); break;
        case 9: rl_beginning_of_history(1, 0); back(N + 1); break;
        case 10: rl_end_of_history(1, 0); keep(); unsave(); break;
        case 11: newline(); sx_cover("accepted"); break;
        case 12: if (!*now(cur)) break; rl_delete_text(0, rl_end); rl_point = 0; changed(""); break;
        case 13: if (N == ENTRIES) break; if (!*now(cur)) { rl_add_history(1, 0); break; } rl_add_history(1, 0); keep(); E[N++] = line_of(now(cur)); at = N; has_saved = 0; cur = line_of(""); sx_cover("added"); break;
        case 15: g_buffer.begin_line(); g_buffer.reset(); keep(); unsave(); { int n = cur.n; changed(""); if (n == cur.n) { if (n == STATES) sx_cut("many edits"); else cur.s[cur.n++].t[0] = 0; } } sx_cover("reset"); break;
        case 14: { int ok = at < N && cur.n == 1; rl_remove_history(1, 0); if (ok) { int old = at; if (at > 0) { back(1); } else forth(1); for (int i = old; i + 1 < N; i++) E[i] = E[i + 1]; N--; if (at > old) at--; sx_cover("removed"); } break; }
        }
        compare(); if (op < 16 || op >= 20) rl_point = rl_end; sx_obs((sx_u64)where_history()); for (const char* p = rl_line_buffer; *p; p++) sx_obs((unsigned char)*p);
    }
    // What the lines of the history hold, and everything is released once.
    keep(); if (at == N) { for (int i = 0; i < N; i++) history_is(i, now(E[i]), "the lines of the history"); } else { rl_end_of_history(1, 0); keep(); for (int i = 0; i < N; i++) history_is(i, now(E[i]), "the lines of the history"); unsave(); compare(); }
    while (rl_undo_list) { rl_do_undo(); } sx_check(eq(rl_line_buffer, cur.s[0].t), "undoing all of it");
    if (at == N) { rl_free_undo_list(); rl_clear_history(); sx_check(!rl_undo_list, "no undo is left"); } sx_cover("end");
}
