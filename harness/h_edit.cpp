// Line editing: every editing command, the kill ring and undo, against edits of a list of characters.
#include "hx.h"
#include <stdio.h>
#include <wchar.h>
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/history.h>
#include <readline/rlprivate.h>
extern int _rl_last_command_was_kill; extern int _rl_utf8locale; extern int _rl_allow_pathname_alphabetic_chars;
static int g_abort; void _rl_set_the_line(void) {} int _rl_abort_internal(void) { g_abort = 1; return 1; } int _rl_read_mbstring(int c, char* mb, int) { mb[0] = (char)c; mb[1] = 0; return 1; }
// What the editing code needs from elsewhere.
int rl_point, rl_end, rl_mark, rl_done, rl_explicit_arg, rl_numeric_arg = 1, rl_arg_sign = 1, rl_editing_mode = emacs_mode, rl_insert_mode = RL_IM_INSERT; int rl_byte_oriented = 0;
char* rl_line_buffer; int rl_line_buffer_len; rl_command_func_t* rl_last_func; unsigned long rl_readline_state; rl_voidfunc_t* rl_redisplay_function; rl_hook_func_t* _rl_internal_startup_hook; int _rl_want_redisplay;
KEYMAP_ENTRY_ARRAY emacs_standard_keymap; Keymap _rl_keymap = emacs_standard_keymap; int rl_pending_input; char* rl_executing_keyseq; int rl_key_sequence_length; int rl_num_chars_to_read; int _rl_echoing_p; int rl_erase_empty_line; int _rl_history_preserve_point, _rl_history_saved_point; 
static int g_ding; int rl_ding(void) { g_ding++; return 0; } int rl_clear_message(void) { return 0; } int _rl_reset_argument_(void) { return 0; } void _rl_reset_argument(void) {} int rl_clear_pending_input(void) { return 0; } void clear_suggestion_list_index(void) {} 
void suppress_sticky_search_position(void) {} double os_clock(void) { return 0; } 
static int width_of(char32_t c) { return c >= 0x300 && c < 0x370 ? 0 : 1; } int (*wcwidth)(char32_t) = width_of;
size_t mbrtowc(wchar_t* w, const char* s, size_t n, mbstate_t*) {
    if (!n) return (size_t)-2; unsigned char c = (unsigned char)s[0]; if (c < 0x80) { if (w) *w = c; return c != 0; } int k = c >= 0xe0 ? 3 : 2; if (c < 0xc2 || c >= 0xf0) return (size_t)-1; unsigned v = c & (k == 3 ? 15 : 31);
    for (int i = 1; i < k; i++) { if ((size_t)i >= n) return (size_t)-2; if ((s[i] & 0xc0) != 0x80) return (size_t)-1; v = v << 6 | (s[i] & 0x3f); } if (w) *w = (wchar_t)v; return (size_t)k; }
size_t mbrlen(const char* s, size_t n, mbstate_t* p) { return mbrtowc(0, s, n, p); }
size_t wcrtomb(char* s, wchar_t c, mbstate_t*) { if (c < 0x80) { s[0] = (char)c; return 1; } sx_cut("wcrtomb"); return (size_t)-1; }
}
enum { DASH = 0x2014, COMB = 0x301, MAX = 40 };
struct Line { int t[MAX], n, pt, mk; };
struct Ring { int t[10][MAX], len[10], n, at, kill, yank; };
static Line L, S[16]; static Ring R; static int g_top; static int U[16], NU;
static int zw(int c) { return c == COMB; }
static int let(int c) { return ((c | 32) >= 'a') & ((c | 32) <= 'z'); }
static int nx(int p) { if (p >= L.n) return p; while (p < L.n && zw(L.t[p])) { p++; } if (p < L.n) p++; while (p < L.n && zw(L.t[p])) p++; return p; }
static int pv(int p) { if (!p) return 0; p--; while (p > 0 && zw(L.t[p])) p--; return p; }
static void del(int a, int b) { for (int i = b; i < L.n; i++) L.t[a + i - b] = L.t[i]; L.n -= b - a; if (L.mk > L.n) L.mk = L.n; if (L.mk < 0) L.mk = 0; }
static void ins(const int* t, int k) { if (L.n + k > MAX) sx_cut("long line"); for (int i = L.n - 1; i >= L.pt; i--) L.t[i + k] = L.t[i]; for (int i = 0; i < k; i++) L.t[L.pt + i] = t[i]; L.n += k; L.pt += k; }
static void keep(const int* t, int k, int append) {
    if (!R.kill || !R.n) { if (R.n == 10) sx_cut("full ring"); R.len[R.n++] = 0; } int s = R.n - 1, *d = R.t[s];
    if (append) for (int i = 0; i < k; i++) d[R.len[s] + i] = t[i]; else { for (int i = R.len[s] - 1; i >= 0; i--) d[i + k] = d[i]; for (int i = 0; i < k; i++) d[i] = t[i]; } R.len[s] += k; R.at = s; }
static void kill_(int a, int b) { if (a == b) { R.kill = 2; return; } int lo = a < b ? a : b, hi = a < b ? b : a, t[MAX], k = 0; for (int i = lo; i < hi; i++) t[k++] = L.t[i]; del(lo, hi); keep(t, k, a < b); R.kill = 2; }
static void fwd(int c); static void bwd(int c) { if (c < 0) { fwd(-c); return; } while (c-- && L.pt) L.pt = pv(L.pt); }
static void fwd(int c) { if (c < 0) { bwd(-c); return; } while (c-- && L.pt < L.n) L.pt = nx(L.pt); }
static void fword(int c); static void bword(int c) { if (c < 0) { fword(-c); return; } while (c--) { while (L.pt && !let(L.t[pv(L.pt)])) L.pt = pv(L.pt); while (L.pt && let(L.t[pv(L.pt)])) L.pt = pv(L.pt); } }
static void fword(int c) { if (c < 0) { bword(-c); return; } while (c--) { while (L.pt < L.n && !let(L.t[L.pt])) L.pt = nx(L.pt); while (L.pt < L.n && let(L.t[L.pt])) L.pt = nx(L.pt); } }
static void rubout(int c, int x); static void delete_(int c, int x) {
    if (c < 0) { rubout(-c, x); return; } if (L.pt == L.n) return; int o = L.pt; if (c > 1 || x) { fwd(c); int e = L.pt; L.pt = o; kill_(o, e); } else del(o, nx(o)); }
static void rubout(int c, int x) { if (c < 0) { delete_(-c, x); return; } if (!L.pt) return; int o = L.pt; if (c > 1 || x) { bwd(c); kill_(o, L.pt); } else { L.pt = pv(o); del(L.pt, o); } }
static void kword(int c, int back) { if (c < 0) { c = -c; back = !back; } int o = L.pt; if (back) bword(c); else fword(c); int e = L.pt; if (!back) L.pt = o; if (o != e) kill_(o, e); L.mk = L.pt; }
static void kline(int c, int back) { if (c < 0) back = !back; int o = L.pt; if (back) { if (!o) return; L.pt = 0; kill_(o, 0); } else if (o != L.n) kill_(o, L.n); L.mk = L.pt; }
static void region(int cut) { if (L.mk != L.pt) { int a = L.pt, b = L.mk; if (cut) { kill_(a, b); L.pt = a < b ? a : b; if (L.pt > L.n) L.pt = L.n; } else { int lo = a < b ? a : b, hi = a < b ? b : a; keep(L.t + lo, hi - lo, a < b); } } R.kill = 2; }
static void copyword(int c, int dir) { if (c < 0) { c = -c; dir = !dir; } int o = L.pt, m = L.mk; if (dir) fword(c); else bword(c); L.mk = L.pt; if (dir) bword(c); else fword(c); region(0); L.mk = m; L.pt = o; }
static void change(int c, int op) { int o = L.pt; fword(c); int a = o, b = L.pt; if (c < 0) { int x = a; a = b; b = x; } int in = 0; for (int i = a; i < b; i++) { if (zw(L.t[i])) continue; if (!let(L.t[i])) { in = 0; continue; } int up = op == 0 || (op == 2 && !in); in = 1; L.t[i] = up ? L.t[i] & ~32 : L.t[i] | 32; } L.pt = b; }
static void twords(int c) { if (!c) return; int o = L.pt; fword(c); int e2 = L.pt; bword(1); int b2 = L.pt; bword(c); int b1 = L.pt; fword(1); int e1 = L.pt; if (b1 == b2 || b2 < e1) { L.pt = o; return; }
    int t[MAX], k = 0, i; for (i = b2; i < e2; i++) t[k++] = L.t[i]; for (i = e1; i < b2; i++) t[k++] = L.t[i]; for (i = b1; i < e1; i++) t[k++] = L.t[i]; for (i = 0; i < k; i++) L.t[b1 + i] = t[i]; L.pt = e2; }
static int g_bytes[MAX + 1];
static int enc(const Line& l, char* o) { int k = 0; for (int i = 0; i < l.n; i++) { int c = l.t[i]; g_bytes[i] = k; if (c < 0x80) o[k++] = (char)c; else if (c < 0x800) { o[k++] = (char)(0xc0 | c >> 6); o[k++] = (char)(0x80 | (c & 63)); } else { o[k++] = (char)(0xe0 | c >> 12); o[k++] = (char)(0x80 | (c >> 6 & 63)); o[k++] = (char)(0x80 | (c & 63)); } } g_bytes[l.n] = k; o[k] = 0; return k; }
static int same_text(const Line& a, const Line& b) { if (a.n != b.n) return 0; for (int i = 0; i < a.n; i++) if (a.t[i] != b.t[i]) return 0; return 1; }
static int holds(const Line& l) { char o[MAX * 3 + 1]; int k = enc(l, o); if (rl_end != k) return 0; int r = rl_line_buffer[k] == 0; for (int i = 0; i < k; i++) r &= rl_line_buffer[i] == o[i]; return r; }
static void compare() { sx_check(holds(L), "text of the line"); sx_check(rl_point == g_bytes[L.pt], "cursor"); if (H_MARKS) sx_check(rl_mark == g_bytes[L.mk], "mark"); sx_check(rl_end < rl_line_buffer_len, "buffer size"); }
// Whatever undo does, the line becomes one that was there before a command, and never a later one than before.
static char* g_tmp_() { static char b[MAX * 3 + 1]; return b; }
static int back_to(const char* what) { int j = NU - 1; while (j >= 0 && !holds(S[j])) j--; sx_check(j >= 0, what); NU = j + 1; int p = 0; L = S[j]; enc(L, g_tmp_()); while (p < L.n && g_bytes[p] < rl_point) p++; sx_check(g_bytes[p] == rl_point, "cursor after undo is at a character"); L.pt = p; L.mk = -1; for (int i = 0; i <= L.n; i++) if (g_bytes[i] == rl_mark) L.mk = i; if (L.mk < 0) { L.mk = L.pt; rl_mark = rl_point; } return j; }
struct Cmd { const char* name; rl_command_func_t* f; };
static const Cmd C[] = { { "insert", 0 }, { "forward-char", rl_forward_char }, { "backward-char", rl_backward_char }, { "beginning-of-line", rl_beg_of_line }, { "end-of-line", rl_end_of_line }, { "forward-word", rl_forward_word }, { "backward-word", rl_backward_word },
    { "delete-char", rl_delete }, { "backward-delete-char", rl_rubout }, { "kill-line", rl_kill_line }, { "backward-kill-line", rl_backward_kill_line }, { "unix-line-discard", rl_unix_line_discard }, { "kill-whole-line", rl_kill_full_line }, { "kill-word", rl_kill_word }, { "backward-kill-word", rl_backward_kill_word },
    { "unix-word-rubout", rl_unix_word_rubout }, { "yank", rl_yank }, { "yank-pop", rl_yank_pop }, { "transpose-chars", rl_transpose_chars }, { "transpose-words", rl_transpose_words }, { "upcase-word", rl_upcase_word }, { "downcase-word", rl_downcase_word }, { "capitalize-word", rl_capitalize_word },
    { "delete-horizontal-space", rl_delete_horizontal_space }, { "set-mark", rl_set_mark }, { "exchange-point-and-mark", rl_exchange_point_and_mark }, { "kill-region", rl_kill_region }, { "copy-region", rl_copy_region_to_kill }, { "copy-forward-word", rl_copy_forward_word }, { "copy-backward-word", rl_copy_backward_word },
    { "undo", rl_undo_command }, { "revert-line", rl_revert_line }, { "overwrite", 0 }, { "rubout-or-delete", rl_rubout_or_delete } };
enum { NC = sizeof(C) / sizeof(*C) };
static int space(int c) { return (c == ' ') | (c == 9); }
static int g_changed;     // the last command changed the line
static void step(int cmd, int count, int x, int ch) {
    Line before = L; int blank[1] = { ch }; int undo = 0; int lk = _rl_last_command_was_kill; R.kill = R.kill ? 1 : 0; int was_yank = R.yank; R.yank = 0; int popped = 0; rl_explicit_arg = x; g_abort = 0;
    // Readline
    if (cmd == 0) { char s[16]; Line o = {}; for (int i = 0; i < count; i++) o.t[o.n++] = ch; enc(o, s); if (ch < 0x80) _rl_insert_char(count, ch); else rl_insert_text(s); enc(L, g_tmp_()); }
    else if (cmd == 32) _rl_overwrite_char(count, ch); else C[cmd].f(count, 0);
    rl_last_func = g_abort ? 0 : C[cmd].f; if (_rl_last_command_was_kill == lk) _rl_last_command_was_kill = 0;
    // Definition
    switch (cmd) {
    case 0: for (int i = 0; i < count; i++) ins(blank, 1); break;
    case 32: for (int i = 0; i < count; i++) { ins(blank, 1); if (L.pt < L.n) del(L.pt, nx(L.pt)); } break;
    case 1: fwd(count); break; case 2: bwd(count); break; case 3: L.pt = 0; break; case 4: L.pt = L.n; break; case 5: fword(count); break; case 6: bword(count); break;
    case 7: delete_(count, x); break; case 8: rubout(count, x); break; case 33: if (L.n && L.pt == L.n) rubout(count, x); else delete_(count, x); break;
    case 9: kline(count, 0); break; case 10: kline(count, 1); break; case 11: if (L.pt) { kill_(L.pt, 0); L.pt = 0; L.mk = 0; } break; case 12: L.pt = 0; kill_(0, L.n); L.mk = 0; break; case 13: kword(count, 0); break; case 14: kword(count, 1); break;
    case 15: if (L.pt) { int o = L.pt; for (int i = count < 1 ? 1 : count; i; i--) { while (L.pt && space(L.t[L.pt - 1])) L.pt--; while (L.pt && !space(L.t[L.pt - 1])) L.pt--; } kill_(o, L.pt); L.mk = L.pt; } break;
    case 16: if (R.n) { L.mk = L.pt; ins(R.t[R.at], R.len[R.at]); R.yank = 1; } else R.yank = was_yank * 0; break;
    case 17: if (was_yank && R.n) { int k = R.len[R.at], o = L.pt - k, eq = o >= 0; for (int i = 0; eq && i < k; i++) eq = L.t[o + i] == R.t[R.at][i]; if (eq) { del(o, L.pt); L.pt = o; S[NU++] = L; popped = 1; R.at = R.at ? R.at - 1 : R.n - 1; L.mk = L.pt; ins(R.t[R.at], R.len[R.at]); R.yank = 1; } } break;
    case 18: if (!count || !L.pt) break; { int bytes = g_bytes[before.n]; if (bytes < 2) break; int at = L.pt, c = count; if (at == L.n) { at = pv(at); c = 1; } int o = pv(at), k = at - o, t[MAX]; for (int i = 0; i < k; i++) t[i] = L.t[o + i]; del(o, at); L.pt = o; while (c-- > 0) L.pt = nx(L.pt); ins(t, k); } break;
    case 19: twords(count); break; case 20: change(count, 0); break; case 21: change(count, 1); break; case 22: change(count, 2); break;
    case 23: { int a = L.pt, b; while (a && space(L.t[a - 1])) a--; b = a; while (b < L.n && space(L.t[b])) b++; del(a, b); L.pt = a; } break;
    case 24: L.mk = x ? (count < 0 || count > L.n ? L.mk : count) : L.pt; break; case 25: { int m = L.mk; L.mk = L.pt; L.pt = m; } break; case 26: region(1); break; case 27: region(0); break; case 28: copyword(count, 1); break; case 29: copyword(count, 0); break;
    case 30: undo = count > 0; break; case 31: undo = 2; break;
    }
    if (cmd == 18 || cmd == 19 || cmd == 32) for (int i = 0, k = enc(L, g_tmp_()); i <= L.n; i++) if (g_bytes[i] == rl_mark && k) L.mk = i;   // these move the mark when it is after them
    if (R.kill != 2) R.kill = 0;
    if (undo == 2) { sx_check(holds(S[0]), "reverting gives the first line"); NU = 1; back_to("reverting"); sx_check(!rl_undo_list, "nothing is left to undo"); }
    else if (undo) { int had = g_changed; back_to("undo gives an earlier line"); if (had) { sx_check(!same_text(L, before) || count < 1, "undo takes the last change back"); sx_cover("undone"); } }
    else { compare(); if (popped || !same_text(L, before)) { if (NU >= 14) sx_cut("many lines"); S[NU++] = L; } }
    g_changed = !undo && !same_text(L, before);
    sx_check(rl_point >= 0 && rl_point <= rl_end && rl_mark >= 0 && rl_mark <= rl_end, "cursor in the line");
}
extern "C" void harness_main() {
    _rl_utf8locale = 1; rl_line_buffer_len = H_BUF; rl_line_buffer = (char*)malloc(H_BUF); static char seq[16]; rl_executing_keyseq = seq;
    static const int alpha[] = { H_ALPHA }; L.n = H_FIX ? H_N : hx_len(0, H_N, "n");
    for (int i = 0; i < L.n; i++) { int c = (int)sx_int(0, 0xffff, "char"); int ok = 0; for (int a : alpha) ok |= c == a; sx_assume(ok); L.t[i] = H_CONC ? (int)sx_conc(c) : c; for (int a : alpha) if (a >= 0x80 && c == a) { L.t[i] = a; break; } }
    if (L.n) sx_assume(L.t[0] != COMB);   // a combining character has something to combine with
    L.pt = sx_pick(L.n + 1, "point"); if (L.pt < L.n) sx_assume(!zw(L.t[L.pt])); L.mk = H_MARK ? sx_pick(L.n + 1, "mark") : 0; if (L.n >= H_BUF) sx_cut("first line"); char* o = g_tmp_(); rl_end = enc(L, o); if (rl_end >= H_BUF) sx_cut("first line"); memcpy(rl_line_buffer, o, rl_end + 1); rl_point = g_bytes[L.pt]; rl_mark = g_bytes[L.mk]; S[0] = L; NU = 1;
    static const int ops[] = { H_OPS }; static const int counts[] = { H_COUNTS }; static const int chars[] = { H_CHARS };
    for (int k = 0; k < H_K; k++) { int cmd = ops[sx_pick(sizeof(ops) / sizeof(*ops), "command")], c = counts[sx_pick(sizeof(counts) / sizeof(*counts), "count")], x = cmd != 32 && c != 1; if (cmd == 0 || cmd == 32) { if (c < 1) return; } int ch = cmd == 0 ? chars[sx_pick(sizeof(chars) / sizeof(*chars), "char")] : cmd == 32 ? chars[0] : 0; enc(L, g_tmp_()); sx_cover(C[cmd].name); step(cmd, c, x, ch); sx_obs((sx_u64)rl_point); }
    // Undoing everything gives back the first line, through lines that were there.
    for (int i = 0; rl_undo_list; i++) { if (i > 60) { sx_check(0, "undo ends"); return; } rl_do_undo(); back_to("undo gives an earlier line"); }
    sx_check(holds(S[0]), "undoing everything gives the first line"); sx_cover("end");
}
