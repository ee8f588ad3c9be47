// The emulated terminal: what a stream of text and control sequences leaves on the screen.
#include "hx.h"
#include "win_console.h"
#include <stdio.h>
#include "core/settings.h"
#include "core/os.h"
#include "terminal/terminal_out.h"
#include "terminal/screen_buffer.h"
#include "terminal/attributes.h"
#include "ecma48_iter.h"
#include "win_screen_buffer.h"
#include "ecma48_terminal_out.h"
#include <process/process.h>
setting_bool g_adjust_cursor_style("terminal.adjust_cursor_style", "", "", true);
static int cur_style = -1, cur_vis = -1;
extern "C" HANDLE get_std_handle(DWORD) { return (HANDLE)8; }
extern "C" int32 cursor_style(HANDLE, int32 style, int32 visible) { if (style >= 0) cur_style = style; if (visible >= 0) cur_vis = visible; return 1; }
bool detect_ucs2_limitation(bool) { return false; }
int FindBestPaletteMatch(const RGB_t& c, const RGB_t (&)[16]) { return (c.r >> 6 ^ c.g >> 4 ^ c.b >> 5) & 15; }
bool __EnumProcesses(std::vector<DWORD>&) { return false; }
process::process(int32) {} int32 process::get_parent_pid() const { return 0; } bool process::get_file_name(str_base&, HMODULE) const { return false; } bool process::get_modules(std::vector<HMODULE>&) const { return false; }
namespace os { bool get_env(const char*, str_base&) { return false; } bool set_env(const char*, const char*) { return true; } bool get_current_dir(str_base&) { return false; } int32 get_errorlevel() { return 0; } }
extern "C" { FILE* _rl_out_stream; int32 _rl_output_character_function(int32) { return 0; } int32 hooked_fwrite(const void*, int32, int32, FILE*) { return 0; } }

int32 find_line(HANDLE, const CONSOLE_SCREEN_BUFFER_INFO&, wchar_t*, int32, WORD*, int32, int32, int32, const char*, find_line_mode, const BYTE*, int32, BYTE) { return -1; }
static SxCon& C = sx_con;
static SxCon R; static int save_x = -1, save_y = -1; // what a terminal would show
// colours: the reference keeps what was asked for and derives the cell attributes
static int fg, bg, bold, under, rev, def; // fg, bg: -1 default, 0..15
static int swz(int c) { return (c & 10) | (c & 1) << 2 | (c >> 2 & 1); }
static WORD cell() { int f = fg < 0 ? def & 15 : swz(fg), b = bg < 0 ? def >> 4 & 15 : swz(bg); if (bold) f |= 8; if (rev) { int t = f; f = b; b = t; } return (WORD)(f | b << 4 | (under ? 0x8000 : 0)); }
static int best(int r, int g, int b) { r >>= 3; g >>= 3; b >>= 3; r = r << 3 | (r & 7); g = g << 3 | (g & 7); b = b << 3 | (b & 7); int i = (r >> 6 ^ g >> 4 ^ b >> 5) & 15; static const int ansi[] = { 0, 4, 2, 6, 1, 5, 3, 7 }; return (i & 8) | ansi[i & 7]; }
static int idx(int i) { if (i < 16) return i; if (i >= 232) { int g = 8 + (i - 232) * 10; return best(g, g, g); } static const int q[] = { 0, 0x5f, 0x87, 0xaf, 0xd7, 0xff }; i -= 16; return best(q[i / 36], q[i / 6 % 6], q[i % 6]); }
static void sgr(const int* p, int n) {
    if (!n) { fg = bg = -1; bold = under = rev = 0; return; }
    for (int i = 0; i < n; i++) { int v = p[i];
        if (v == 0) { fg = bg = -1; bold = under = rev = 0; } else if (v == 1) bold = 1; else if (v == 2 || v == 22) bold = 0; else if (v == 4) under = 1; else if (v == 24) under = 0; else if (v == 7) rev = 1; else if (v == 27) rev = 0;
        else if (v == 39) fg = -1; else if (v == 49) bg = -1; else if (v >= 30 && v <= 37) fg = v - 30; else if (v >= 90 && v <= 97) fg = v - 82; else if (v >= 40 && v <= 47) bg = v - 40; else if (v >= 100 && v <= 107) bg = v - 92;
        else if (v == 38 || v == 48) { int c = -1; if (i + 1 >= n) break; int k = p[++i]; if (k == 5) { if (i + 1 < n) c = idx(p[i + 1]); i++; } else if (k == 2) { if (i + 3 < n) c = best(p[i + 1], p[i + 2], p[i + 3]); i += 3; } if (c >= 0) (v == 38 ? fg : bg) = c; }
    }
}
static void put(int y, int x, wchar_t c) { if (x >= 0 && x < R.w && y >= 0 && y < R.h) R.ch[y][x] = c, R.at[y][x] = R.attr; }
static void go(int x, int y) { x = (int)sx_conc((sx_u64)x); y = (int)sx_conc((sx_u64)y); R.cx = x; R.cy = y; int d = y < R.top ? y - R.top : y > R.bottom ? y - R.bottom : 0; R.top += d; R.bottom += d; }
static int cl(int v, int lo, int hi) { return v < lo ? lo : v > hi ? hi : v; }
static void lf() { if (R.cy + 1 == R.h) { for (int y = 0; y + 1 < R.h; y++) for (int x = 0; x < R.w; x++) R.ch[y][x] = R.ch[y + 1][x], R.at[y][x] = R.at[y + 1][x]; for (int x = 0; x < R.w; x++) put(R.h - 1, x, ' '); go(0, R.cy); } else go(0, R.cy + 1); }
static void text(int c) { put(R.cy, R.cx, (wchar_t)c); if (R.cx + 1 == R.w) lf(); else go(R.cx + 1, R.cy); }
static void csi(char f, const int* p, int n) {
    int a = n > 0 ? p[0] : 1, b = n > 1 ? p[1] : 1, z = n > 0 ? p[0] : 0, W = R.w, x = R.cx, y = R.cy;
    switch (f) {
    case 'A': go(x, cl(y - a, 0, R.h - 1)); break; case 'B': go(x, cl(y + a, 0, R.h - 1)); break; case 'C': go(cl(x + a, 0, W - 1), y); break; case 'D': go(cl(x - a, 0, W - 1), y); break;
    case 'G': go(cl(a - 1, 0, W - 1), y); break; case 'H': go(cl(b - 1, 0, W - 1), R.top + cl(a - 1, 0, R.bottom - R.top)); break;
    case 'J': for (int i = R.top; i <= R.bottom; i++) for (int j = 0; j < W; j++) { int c = i * W + j, at = y * W + x; if (z == 2 || (z == 0 && c >= at) || (z == 1 && c <= at)) put(i, j, ' '); } break;
    case 'K': for (int j = 0; j < W; j++) if (z == 2 || (z == 0 && j >= x) || (z == 1 && j <= x)) put(y, j, ' '); break;
    case '@': for (int j = W - 1; j >= x; j--) { if (j - a >= x) R.ch[y][j] = R.ch[y][j - a], R.at[y][j] = R.at[y][j - a]; else put(y, j, ' '); } break;
    case 'P': for (int j = x; j < W; j++) { if (j + a < W) R.ch[y][j] = R.ch[y][j + a], R.at[y][j] = R.at[y][j + a]; else put(y, j, ' '); } break;
    case 's': save_x = x; save_y = y - R.top; break; case 'u': if (save_x >= 0) go(cl(save_x, 0, W - 1), R.top + cl(save_y, 0, R.bottom - R.top)); break;
    case 'm': sgr(p, n); R.attr = cell(); break;
    }
}
static void same(const char* what) {
    sx_check(C.cx == R.cx && C.cy == R.cy, "cursor"); sx_check(C.top == R.top && C.bottom == R.bottom, "part of the buffer that is shown"); sx_check(C.attr == R.attr, "attributes");
    int t = 1, a = 1; for (int y = 0; y < R.h; y++) for (int x = 0; x < R.w; x++) { t &= C.ch[y][x] == R.ch[y][x]; a &= C.at[y][x] == R.at[y][x]; } sx_check(t, "text on the screen"); sx_check(a, "colours on the screen");
    sx_obs((sx_u64)C.cx); sx_obs((sx_u64)C.cy); sx_obs(C.attr); for (int y = 0; y < C.h; y++) for (int x = 0; x < C.w; x++) { sx_obs(C.ch[y][x]); sx_obs(C.at[y][x]); }
}
#ifndef H_SPLIT
#define H_SPLIT 0
#endif
static ecma48_terminal_out* T; static win_screen_buffer* S;
static void out(const char* s, int n) { if (H_SPLIT) for (int i = 0; i < n; i++) T->write(s + i, 1); else T->write(s, n); }
static int num(char* o, int digits, int max, const char* name) { int v = 0; char* d; if (H_D > 1 && digits == H_D) { static const char* PF[] = { "0000", "0327", "0655", "0000" }; const char* q = PF[sx_pick(3, "prefix")]; d = hx_alpha<char>(2, "0123456789", name); for (int i = 0; i < 4; i++) v = v * 10 + (q[i] - '0'), o[i] = q[i]; for (int i = 0; i < 2; i++) v = v * 10 + (d[i] - '0'), o[4 + i] = d[i]; sx_assume(v <= max); return v; } d = hx_alpha<char>(digits, "0123456789", name); for (int i = 0; i < digits; i++) v = v * 10 + (d[i] - '0'), o[i] = d[i]; sx_assume(v <= max); return v; }
extern "C" void harness_main() {
    settings::find("terminal.emulation")->set("emulate");
    C.w = 5; C.h = 4; C.top = 1; C.bottom = 3; for (int y = 0; y < C.h; y++) for (int x = 0; x < C.w; x++) C.ch[y][x] = (wchar_t)('a' + y * 5 + x), C.at[y][x] = (WORD)(16 + y * 5 + x);
    static const WORD DA[] = { 0x07, 0x1f, 0x70 }; def = DA[H_MODE == 1 ? sx_pick(3, "default") : 0]; C.attr = (WORD)def; C.cy = 1; fg = bg = -1;
    static win_screen_buffer scr; S = &scr; scr.open(); static ecma48_terminal_out to(scr); T = &to; to.begin();
    if (H_MODE == 0) { if (H_POS) { C.cx = sx_pick(C.w, "x"); C.cy = C.top + sx_pick(3, "y"); } else C.cx = 2, C.cy = 2; C.attr = 0x2b; fg = 11; bg = 2; bold = 0; }
    R = C;
    if (H_MODE == 0) { // cursor movement, clearing, inserting and deleting, text
        for (int k = 0; k < H_K; k++) {
            static const char F[] = "ABCDGHJK@Psuxbrntv"; int f = sx_pick(sizeof(F) - 1, "operation"); char s[24] = "\x1b["; int n = 2, p[2], np = 0;
            if (F[f] == 'x') { char* c = hx_str<char>(1, "character"); sx_assume(*c >= 32 && *c < 127); out(c, 1); text(*c); sx_cover("text"); continue; }
            if (F[f] == 'b' || F[f] == 'r' || F[f] == 'n' || F[f] == 't') { char c = F[f] == 'b' ? 8 : F[f] == 'r' ? 13 : F[f] == 'n' ? 10 : 9; out(&c, 1); if (c == 8) go(cl(R.cx - 1, 0, R.w - 1), R.cy); else if (c == 13) go(0, R.cy); else if (c == 10) lf(); else lf(); sx_cover("control character"); continue; }
            if (F[f] == 'v') { int c = sx_pick(3, "private"), h = sx_pick(2, "set"); const char* q = c == 0 ? "?25" : c == 1 ? "?12" : "?12;25"; int st = c == 0 ? cur_style : h, vi = c == 1 ? cur_vis : h; strcpy(s + 2, q); n += (int)strlen(q); s[n++] = h ? 'h' : 'l'; out(s, n); sx_check(cur_style == st && cur_vis == vi, "cursor style"); sx_cover("cursor style"); continue; }
            char g = F[f]; int most = g == 's' || g == 'u' ? 0 : g == 'H' ? 2 : 1; np = most ? sx_pick(most + 1, "parameters") : 0;
            for (int i = 0; i < np; i++) { if (i) s[n++] = ';'; p[i] = num(s + n, H_D, g == 'J' ? 2 : 99999, "p"); n += H_D; if (strchr("ABCD@P", g)) sx_assume(p[i] > 0); }
            s[n++] = g; out(s, n); csi(g, p, np); sx_cover("sequence");
            same("op");
        }
        same("end");
    } else if (H_MODE == 1) { // colours
        for (int k = 0; k < H_K; k++) {
            char s[64] = "\x1b["; int n = 2, p[8], np = 0, kind = H_EXT ? sx_pick(2, "kind") : 0; np = H_EXT ? hx_len(1, kind ? 6 : 4, "parameters") : hx_len(0, H_N, "parameters");
            for (int i = 0; i < np; i++) { if (i) s[n++] = ';'; if (H_EXT && !i) { p[0] = 38 + 10 * sx_pick(2, "bg"); s[n++] = p[0] == 38 ? '3' : '4'; s[n++] = '8'; continue; } if (H_EXT && i == 1) { p[1] = kind ? 2 : 5; s[n++] = (char)('0' + p[1]); continue; } p[i] = num(s + n, 3, 255, "p"); n += 3; }
            s[n++] = 'm'; out(s, n); sgr(p, np); R.attr = cell(); same("sgr"); sx_cover(np ? "codes" : "reset");
        }
    } else if (H_MODE == 3) { // the title of the window
        int n = hx_len(0, H_N, "n"); char* t = hx_str<char>(n, "title"); for (int i = 0; i < n; i++) sx_assume(t[i] >= 32 && t[i] < 127); if (n > 1) sx_assume(t[0] != 34 || t[n - 1] != 34); char s[40] = "\x1b]"; s[2] = (char)('0' + sx_pick(3, "which")); s[3] = ';'; strcpy(s + 4, t); strcat(s, sx_pick(2, "end") ? "\x1b\\" : "\a"); strcat(s, "o"); out(s, (int)strlen(s)); text('o'); same("title");
        sx_check(C.titles == 1 && C.beeps == 0, "title set once"); for (int i = 0; i <= n; i++) sx_check(C.title[i] == t[i], "title"); sx_cover("title"); out("\a", 1); sx_check(C.beeps == 1, "bell"); same("bell");
    } else { // any bytes, whole or one at a time: nothing of a valid text is lost, and nothing else is touched
        int n = hx_len(0, H_N, "n"); char* s = hx_alpha<char>(n, H_ALPHA, "text"); out(s, n); int ok = 1, i = 0;
        for (; ok && i < n;) { unsigned char c = (unsigned char)s[i]; int l = c < 0x80 ? 1 : c < 0xc3 ? 0 : c < 0xe0 ? 2 : c == 0xe3 ? 3 : c == 0xf0 ? 4 : 0; if (!l || i + l > n) ok = 0; for (int j = 1; ok && j < l; j++) if (((unsigned char)s[i + j] & 0xc0) != 0x80) ok = 0; if (ok && c == 0xf0 && (unsigned char)s[i + 1] < 0x90) ok = 0;
            if (!ok) break; int v = l == 1 ? c : c & (0xff >> (l + 1)); for (int j = 1; j < l; j++) v = v << 6 | ((unsigned char)s[i + j] & 0x3f); if (v > 0xffff) { text(0xd800 + ((v - 0x10000) >> 10)); text(0xdc00 + ((v - 0x10000) & 0x3ff)); sx_cover("pair"); } else text(v); if (l > 1) sx_cover("several bytes"); i += l; }
        if (ok) same("text"); else { sx_cover("invalid"); R = C; // it recovers: what follows arrives
            out("o", 1); text('o'); same("after invalid text"); }
    }
    to.end(); sx_check(C.attr == def, "the attributes are restored at the end"); sx_cover("end");
}
