// The input line on the screen: what is shown after each change of the line, against a layout computed from the line alone.
#include "hx.h"
#include <stdio.h>
#include <wchar.h>
#include "core/settings.h"
#include "lib/display_readline.h"
#include "lib/line_editor_integration.h"
#include "lib/hinter.h"
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/history.h>
#include <readline/rlprivate.h>
extern void (*rl_fwrite_function)(FILE*, const char*, int); extern void (*rl_fflush_function)(FILE*); extern int _rl_last_v_pos, _rl_vis_botlin; extern int _rl_rprompt_shown_len;
char* tgetstr(const char*, char**); void end_prompt_lf(void);
// What the display code needs from elsewhere.
int rl_point, rl_end, rl_mark; char* rl_line_buffer; unsigned long rl_readline_state; int _rl_echoing_p = 1, rl_byte_oriented, _rl_utf8locale = 1, _rl_horizontal_scroll_mode, _rl_mark_modified_lines, _rl_want_redisplay, rl_editing_mode = 1, _rl_show_mode_in_prompt, _rl_screenwidth, _rl_screenheight, _rl_term_autowrap = 1;
char *rl_prompt, *rl_display_prompt, *_rl_term_up, *_rl_term_ch, *_rl_term_IC, *_rl_term_DC, *_rl_term_clreol, *_rl_term_forward_char; const char* _rl_display_modmark_color; FILE *rl_outstream, *_rl_out_stream; rl_voidfunc_t* rl_before_display_function; UNDO_LIST* rl_undo_list;
static int g_mark; int rl_mark_active_p(void) { return g_mark; } void rl_keep_mark_active(void) {} HIST_ENTRY* current_history(void) { return 0; } void history_free_expansions(history_expansion**) {}
static int put(int c) { char b = (char)c; rl_fwrite_function(0, &b, 1); return 1; } int _rl_output_character_function(int c) { return put(c); } int rl_crlf(void) { put('\n'); return 0; } void _rl_cr(void) { put('\r'); }
int hooked_fwrite(const void* d, int s, int n, FILE*) { rl_fwrite_function(0, (const char*)d, s * n); return s * n; } int hooked_putc(int c, FILE*) { return put(c); } int hooked_fflush(FILE*) { return 0; } int hooked_fprintf(FILE*, const char*, ...) { sx_cut("fprintf"); return 0; }
void _rl_block_sigint(void) {} void _rl_release_sigint(void) {} int32 is_CJK_codepage(UINT) { return 0; } void terminal_end_command() {} void allow_suggestion_list(int) {}
size_t mbrtowc(wchar_t* w, const char* s, size_t n, mbstate_t*) {
    if (!n) return (size_t)-2; unsigned char c = (unsigned char)s[0]; if (c < 0x80) { if (w) *w = c; return c != 0; } int k = c >= 0xe0 ? 3 : 2; if (c < 0xc2 || c >= 0xf0) return (size_t)-1; unsigned v = c & (k == 3 ? 15 : 31);
    for (int i = 1; i < k; i++) { if ((size_t)i >= n) return (size_t)-2; if ((s[i] & 0xc0) != 0x80) return (size_t)-1; v = v << 6 | (s[i] & 0x3f); } if (w) *w = (wchar_t)v; return (size_t)k; }
size_t mbrlen(const char* s, size_t n, mbstate_t* p) { return mbrtowc(0, s, n, p); }
}
static BOOL WINAPI version(LPOSVERSIONINFOA v) { v->dwMajorVersion = 10; return 1; }
static UINT WINAPI codepage() { return 437; }
#ifdef SX_ENGINE
extern "C" UINT WINAPI GetConsoleOutputCP() { return 437; }
extern "C" BOOL WINAPI GetVersionExA(LPOSVERSIONINFOA v) { return version(v); }
#else
extern "C" { void* __imp_GetVersionExA = (void*)version; void* __imp_GetConsoleOutputCP = (void*)codepage; }
#endif
bool is_test_harness() { return true; } int32 g_prompt_redisplay; bool is_sparse_prompt_spacing() { return false; } void init_deduce_scroll_mode() {} static input_hint g_hint; static int g_hinted; static const char* const HINT = "hi"; const input_hint* get_input_hint() { return g_hinted ? &g_hint : nullptr; } DWORD input_hint::get_timeout() const { return 0; } void input_hint::set(const char* h, int32 p) { m_hint = h; m_pos = p; m_empty = false; } bool is_suggestion_list_enabled() { return false; } bool is_suggestion_list_active(bool) { return false; } uint32 get_suggestion_list_height() { return 0; }
void notify_suggestion_list_cleared() {} void hide_suggestion_list() {} 
setting_bool g_debug_log_terminal("d.t", "", "", false), g_history_autoexpand("h.a", "", "", false), g_suggestionlist_hide_hints("s.h", "", "", false), g_adjust_cursor_style("a.c", "", "", false); setting_enum g_expand_mode("h.e", "", "", "off,on", 0); setting_color g_color_comment_row("c.c", "", "", "green");
namespace os { bool get_env(const char*, str_base&) { return false; } }
// A terminal: lines wrap when the next character doesn't fit.
#ifndef H_TRACE
#define H_TRACE 0
#endif
enum { W = H_W, HH = H_H, NORMAL = '0', WIDE2 = -1 };
struct Cell { int c, f; };
static Cell G[HH][W]; static int cx, cy, pend, face = NORMAL, scrolled; static char esc[40]; static int ne; static int u8, un, osc;
static void blank(int y, int a, int b) { for (int x = a; x < b; x++) { G[y][x].c = ' '; G[y][x].f = NORMAL; } }
static void split(int y, int x) { if (x > 0 && x < W && G[y][x].c == WIDE2) { blank(y, x - 1, x); G[y][x].c = ' '; } }      // what happens at the edge of a change
static void down() { pend = 0; if (cy == HH - 1) { for (int y = 0; y + 1 < HH; y++) for (int x = 0; x < W; x++) G[y][x] = G[y + 1][x]; blank(HH - 1, 0, W); scrolled++; } else cy++; }
static void show(int c, int w) { if (pend || cx + w > W) { cx = 0; down(); } split(cy, cx); split(cy, cx + w); G[cy][cx].c = c; G[cy][cx].f = face; if (w == 2) { G[cy][cx + 1].c = WIDE2; G[cy][cx + 1].f = face; } cx += w; if (cx == W) { cx = W - 1; pend = 1; } }
static void csi() {
    int n = 0, any = 0; for (int i = 1; i < ne - 1; i++) if (esc[i] >= '0' && esc[i] <= '9') { n = n * 10 + esc[i] - '0'; any = 1; } else n = 0; char f = esc[ne - 1]; if (f != 'm') pend = pend && (f == 'K' || f == 'J'); if (!n && f != 'K' && f != 'J' && f != 'm') n = 1;
    switch (f) {
    case 'A': cy = cy < n ? 0 : cy - n; break; case 'G': cx = n > W ? W - 1 : n - 1; break; case 'm': face = any ? n : NORMAL; break;
    case 'K': sx_check(n == 0, "erase in line"); split(cy, cx); blank(cy, cx, W); break;
    case 'J': sx_check(n == 0, "erase in display"); split(cy, cx); blank(cy, cx, W); for (int y = cy + 1; y < HH; y++) blank(y, 0, W); break;
    case '@': split(cy, cx); for (int x = W - 1; x >= cx + n; x--) G[cy][x] = G[cy][x - n]; blank(cy, cx, cx + n < W ? cx + n : W); if (G[cy][W - 1].c > 0x2000) blank(cy, W - 1, W); break;
    case 'P': split(cy, cx); if (cx + n < W) split(cy, cx + n); for (int x = cx; x < W; x++) if (x + n < W) G[cy][x] = G[cy][x + n]; else blank(cy, x, x + 1); break;
    default: sx_cut("sequence"); } }
static void term(FILE*, const char* s, int n) { if (H_TRACE) sx_traces("out", s, 1); for (int i = 0; i < n; i++) { int c = (unsigned char)s[i];
    if (ne) { esc[ne++] = (char)c; if (ne == 2) { if (c != '[') sx_cut("escape"); } if (ne > 2 && c >= 0x40) { for (int k = 1; k < ne; k++) esc[k - 1] = esc[k]; ne--; csi(); ne = 0; } continue; }
    if (un) { u8 = u8 << 6 | (c & 0x3f); if (!--un) show(u8, u8 >= 0x1100 ? 2 : 1); continue; }
    if (c >= ' ' && c < 0x7f) { show(c, 1); continue; }
    if (c == 0x1b) { ne = 1; esc[0] = 0x1b; } else if (c == '\r') { cx = 0; pend = 0; } else if (c == '\n') { down(); cx = 0; } else if (c == 8) { if (cx) cx--; pend = 0; } else if (c >= 0xc0) { un = c >= 0xe0 ? 2 : 1; u8 = c & (un == 2 ? 15 : 31); } else sx_check(0, "a control character is sent to the screen"); } }
static void flush(FILE*) {}
static char face_of(int i, int a, int b) { return i >= a && i < b ? '#' : '2'; }
static void puts_face(const char* s, const char* f, int n) { char cur = NORMAL; for (int i = 0; i < n; i++) { if (f[i] != cur) { cur = f[i]; char b[12]; int k = sprintf(b, "\x1b[%dm", cur); rl_fwrite_function(0, b, k); } rl_fwrite_function(0, s + i, 1); } rl_fwrite_function(0, "\x1b[m", 3); }
// The line as characters, and the screen as it should be.
struct Ch { int c, kind; }; struct Line { Ch t[24]; int n, pt, mk; }; enum { LETTER, CTRL, WIDEC, NL, ACCENT };
static Line L; static char g_buf[80];
static Cell E[HH + 4][W]; static int en, ex, ey, py, px, edge;      // rows, the cursor, where the input starts
static void eput(int& x, int& y, int c, int f, int w) { if (x + w > W) { x = 0; y++; } if (y >= HH + 4) sx_cut("too many rows"); E[y][x].c = c; E[y][x].f = f; if (w == 2) { E[y][x + 1].c = WIDE2; E[y][x + 1].f = f; } x += w; }
static const char* P_ = H_PROMPT;
static void layout() {
    edge = 0;
    for (int y = 0; y < HH + 4; y++) for (int x = 0; x < W; x++) { E[y][x].c = ' '; E[y][x].f = NORMAL; }
    int x = 0, y = 0; for (const char* p = P_; *p; p++) if (*p == '\n') { x = 0; y++; } else eput(x, y, *p, NORMAL, 1);
    if (x == W) { x = 0; y++; } px = x; py = y;
    int a = -1, b = -1; if (L.mk >= 0) { a = L.mk < L.pt ? L.mk : L.pt; b = L.mk < L.pt ? L.pt : L.mk; }
    for (int i = 0; i <= L.n; i++) {
        int w = i < L.n && L.t[i].kind == WIDEC ? 2 : 1; if (i == L.n || L.t[i].kind != NL) if (x + w > W) { x = 0; y++; }
        if (i == L.pt) { ex = x; ey = y; } if (i == L.n) break; int f = i >= a && i < b ? '#' : '2';
        if (L.t[i].kind == NL) { if (i == L.pt && x == W) { ex = W - 1; edge = 1; } x = 0; y++; } else if (L.t[i].kind == CTRL) { eput(x, y, '^', f, 1); eput(x, y, L.t[i].c + 64, f, 1); } else eput(x, y, L.t[i].c, f, w); }
    en = y + 1; }
static int bytes(int i) { int b = 0; for (int k = 0; k < i; k++) b += L.t[k].kind == WIDEC ? 3 : L.t[k].kind == ACCENT ? 2 : 1; return b; }
static void setline() { int b = 0; for (int i = 0; i < L.n; i++) { int c = L.t[i].c; if (L.t[i].kind == WIDEC) { g_buf[b++] = (char)(0xe0 | c >> 12); g_buf[b++] = (char)(0x80 | (c >> 6 & 63)); g_buf[b++] = (char)(0x80 | (c & 63)); } else if (L.t[i].kind == ACCENT) { g_buf[b++] = (char)(0xc0 | c >> 6); g_buf[b++] = (char)(0x80 | (c & 63)); } else g_buf[b++] = (char)c; }
    g_buf[b] = 0; rl_end = b; rl_point = bytes(L.pt); g_mark = L.mk >= 0; rl_mark = g_mark ? bytes(L.mk) : 0; rl_line_buffer = g_buf; }
static Ch any(const char* kinds) { static int id; char nm[12]; Ch c; c.kind = kinds[sx_pick((int)strlen(kinds), "kind")] - '0'; if (c.kind == LETTER) { char* b = (char*)malloc(1); sx_sym(b, 1, "ch"); sx_assume(*b >= 'a' && *b <= 'z'); c.c = *b; } else c.c = c.kind == CTRL ? 1 : c.kind == WIDEC ? 0x65e5 : c.kind == ACCENT ? 0xe9 : '\n'; return c; }
static Cell S[HH][W]; static unsigned char M[HH][W];    // the screen as it should be: M 0 blank, 1 this cell, 2 anything
static int agrees() { int ok = 1; for (int y = 0; y < HH; y++) for (int x = 0; x < W; x++) { if (M[y][x] == 2) continue; ok &= G[y][x].c == (M[y][x] ? S[y][x].c : ' '); } return ok; }
static int same_faces() { int fo = 1; for (int y = 0; y < HH; y++) for (int x = 0; x < W; x++) { if (M[y][x] == 2) continue; int c = M[y][x] ? S[y][x].c : ' ', f = M[y][x] ? S[y][x].f : NORMAL; if (c == WIDE2) continue; fo &= (G[y][x].f == f) | (c == ' '); } return fo; }
static void cell(int y, int x, int c, int f) { if (y < 0 || y >= HH) return; S[y][x].c = c; S[y][x].f = f; M[y][x] = 1; }
static int cols(int y) { int k = 0; for (int x = 0; x < W; x++) if (E[y][x].f != NORMAL) k = x + 1; return k; }
static int shown, blank_last;     // rows of input shown; whether nothing is on the last one
static void rows(int base, int hint) {
    int room = H_ROWS ? H_ROWS : HH, T = en - py, R = T < room ? T : room, top = 0; shown = R; blank_last = 0; memset(M, 0, sizeof M);
    top = (ey - py) - (cy - base - py); sx_check(top >= 0 && top + R <= T, "the cursor is in another row"); if (T > R) sx_cover("scrolls"); if (top > 0) sx_cover("scrolled down"); sx_check(top + R == T || ey < py + top + R, "the cursor's row isn't shown"); sx_check(ey >= py + top && ey < py + top + R, "the cursor's row is not shown");
    for (int y = 0; y < py; y++) for (int x = 0; x < W; x++) { cell(base + y, x, E[y][x].c, E[y][x].f); if (top > 0) M[base + y][x] = 2; }      // (a prompt that wraps isn't shown while its last row isn't)
    for (int r = 0; r < R; r++) { int y = base + py + r, e = py + top + r; for (int x = 0; x < W; x++) cell(y, x, E[e][x].c, E[e][x].f);
        if (r == 0 && top > 0) { if (E[e][1].c == WIDE2) cell(y, 1, ' ', NORMAL); cell(y, 0, '<', '<'); sx_check(cx > 0 || cy != y, "the cursor is on the marker at the top"); }
        if (r == R - 1 && top + R < T && cols(e) > 2) { if (E[e][W - 2].c == WIDE2) cell(y, W - 3, ' ', NORMAL); cell(y, W - 2, '>', '<'); cell(y, W - 1, ' ', NORMAL); sx_check(edge || cx < (E[e][W - 2].c == WIDE2 ? W - 3 : W - 2) || cy != y, "the cursor is on the marker at the bottom"); } }
    if (top + R == T && !cols(en - 1) && !(en - 1 == py && px)) blank_last = 1;
    int n = (int)strlen(H_RP); if (n && T == 1 && !py) { int k = cols(py) ? cols(py) : px; if (k + 1 + n < W) { for (int i = 0; i < n; i++) cell(base + py, W - n + i, H_RP[i], NORMAL); sx_cover("right prompt"); } }
    if (hint) { for (int i = 0; HINT[i]; i++) cell(base + py + R, i, HINT[i], '2'); for (int i = 0; HINT[i]; i++) if (base + py + R < HH) S[base + py + R][i].f = 32; sx_cover("hint"); } }
// One row only: part of the line, from character s on.
static int one_row(int base, int hint, int s) {
    memset(M, 0, sizeof M); int y = base + py, x = px; shown = 1; blank_last = 0; for (int r = 0; r < py; r++) for (int k = 0; k < W; k++) cell(base + r, k, E[r][k].c, E[r][k].f);
    int a = -1, b = -1; if (L.mk >= 0) { a = L.mk < L.pt ? L.mk : L.pt; b = L.mk < L.pt ? L.pt : L.mk; } int at = -1;
    if (s) { cell(y, 0, '<', '<'); x = 1; } else for (int k = 0; k < px; k++) cell(y, k, E[py][k].c, NORMAL);
    int i = s; for (; i < L.n; i++) { int w = L.t[i].kind == WIDEC || L.t[i].kind == CTRL || L.t[i].kind == NL ? 2 : 1; if (x + w > W - 2) break; int f = i >= a && i < b ? '#' : '2'; if (i == L.pt) at = x;
        if (L.t[i].kind == CTRL || L.t[i].kind == NL) { cell(y, x, '^', f); cell(y, x + 1, L.t[i].c + 64, f); } else { cell(y, x, L.t[i].c, f); if (w == 2) cell(y, x + 1, WIDE2, f); } x += w; }
    if (i < L.n) cell(y, x, '>', '<');
    if (i == L.n && L.pt == L.n) at = x; int n = (int)strlen(H_RP); if (n && !py && !hint) { int k = i < L.n ? x + 1 : x; if (k + 1 + n < W) for (int j = 0; j < n; j++) cell(y, W - n + j, H_RP[j], NORMAL); }
    if (hint) for (int j = 0; HINT[j]; j++) { cell(y + 1, j, HINT[j], 32); }
    return (cx == at) & (cy == y) & agrees() & same_faces(); }
static void compare() {
    layout(); sx_trace("cx", cx); sx_trace("cy", cy); sx_trace("ex", ex); sx_trace("ey", ey); int base = H_Y0 - scrolled;
    for (int y = 0; y < HH; y++) { char r[W * 2 + 3]; int k = 0; for (int x = 0; x < W; x++) r[k++] = G[y][x].c == WIDE2 ? '_' : G[y][x].c > 126 ? 'W' : (char)G[y][x].c; r[k++] = '|'; for (int x = 0; x < W; x++) r[k++] = E[y][x].c == WIDE2 ? '_' : E[y][x].c > 126 ? 'W' : (char)E[y][x].c; r[k] = 0; sx_traces("row", r, 1); }
    if (H_HORZ) { int ok = 0; for (int s = 0; s <= L.n; s++) ok |= one_row(base, g_hinted, s); sx_check(ok, "the screen shows no part of the line"); if (G[base + py][0].c == '<') sx_cover("scrolled"); }
    else { sx_check(cx == ex && !pend, "the cursor is in another column"); rows(base, g_hinted); sx_check(agrees(), "the screen shows something else"); sx_check(same_faces(), "the colors are others"); }
    for (int y = 0; y < HH; y++) for (int x = 0; x < W; x++) sx_obs(G[y][x].c); sx_obs(cx); sx_obs(cy); if (scrolled) sx_cover("the screen scrolled"); if (en > 2) sx_cover("wrapped"); }
extern "C" void harness_main() {
    for (int y = 0; y < HH; y++) blank(y, 0, W); cy = H_Y0; _rl_screenwidth = W; _rl_screenheight = HH; rl_fwrite_function = term; rl_fflush_function = flush; rl_get_face_func = face_of; rl_puts_face_func = puts_face;
    _rl_term_up = tgetstr("up", 0); _rl_term_ch = tgetstr("ch", 0); _rl_term_IC = tgetstr("IC", 0); _rl_term_DC = tgetstr("DC", 0); _rl_term_clreol = tgetstr("ce", 0); _rl_term_forward_char = tgetstr("nd", 0);
    if (H_ROWS) { char v[4]; sprintf(v, "%d", H_ROWS); settings::find("clink.max_input_rows")->set(v); } rl_redisplay_function = display_readline; static char prompt[] = H_PROMPT; rl_prompt = rl_display_prompt = prompt; g_display_manager_no_comment_row = !H_HINT; g_hint.set(HINT, 0); if (*H_RP) rl_set_rprompt(H_RP);
    rl_expand_prompt(prompt); init_display_readline(); reset_display_readline(); rl_on_new_line();
    L.n = hx_len(0, H_L, "n"); for (int i = 0; i < L.n; i++) L.t[i] = any(H_K1); L.pt = sx_pick(2, "pt1") ? L.n : 0; L.mk = -1;
    g_hinted = H_HINT && sx_pick(2, "hint1"); setline(); rl_forced_update_display(); compare();
    for (int s = 0; s < H_STEPS; s++) {
        int at = sx_pick(L.n + 1, "at"), del = sx_pick((H_DEL < L.n - at ? H_DEL : L.n - at) + 1, "del"), ins = sx_pick(H_INS + 1, "ins"); if (L.n - del + ins > 22) sx_assume(0);
        Line o = L; for (int i = at + del; i < o.n; i++) L.t[i - del + ins] = o.t[i]; for (int i = 0; i < ins; i++) L.t[at + i] = any(H_K2); L.n += ins - del; L.pt = sx_pick(L.n + 1, "pt"); L.mk = H_SEL && sx_pick(2, "sel") ? sx_pick(L.n + 1, "mark") : -1;
        g_hinted = H_HINT && sx_pick(2, "hint"); setline(); display_readline(); compare(); }
    if (H_END) { end_prompt_lf(); g_hinted = 0; int base = H_Y0 - scrolled, y = base + py + shown - blank_last; if (blank_last) sx_cover("blank last row"); sx_check(cx == 0 && cy == y && !pend, "the cursor is not at the start of the next row"); for (int r = y; r < HH; r++) for (int x = 0; x < W; x++) sx_check(G[r][x].c == ' ', "the next row is not blank"); if (!H_HORZ) { cx = ex; cy = ey + base; pend = 0; if (!H_ROWS) { rows(base, 0); sx_check(agrees(), "the line is gone"); } } }
}
