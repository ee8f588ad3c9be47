// How many cells text takes, and where its characters begin and end.
#include "hx.h"
#include "core/str_iter.h"
#include "terminal/wcwidth.h"
#include "width_table.h"
extern bool g_color_emoji;
static int enc(unsigned c, char* o) { if (c < 0x80) { o[0] = (char)c; return 1; } if (c < 0x800) { o[0] = (char)(0xc0 | c >> 6); o[1] = (char)(0x80 | (c & 63)); return 2; } if (c < 0x10000) { o[0] = (char)(0xe0 | c >> 12); o[1] = (char)(0x80 | (c >> 6 & 63)); o[2] = (char)(0x80 | (c & 63)); return 3; } o[0] = (char)(0xf0 | c >> 18); o[1] = (char)(0x80 | (c >> 12 & 63)); o[2] = (char)(0x80 | (c >> 6 & 63)); o[3] = (char)(0x80 | (c & 63)); return 4; }
// The kinds of code points: width alone, and what they do next to others.
enum { ORD, CTRL, COMB, WIDE, EMOJI, HALF, FLAG, ZWJ, VS, SIGN };
static const struct { unsigned c, hi; int kind, w; } P[] = { { ' ', '~', ORD, 1 }, { 1, 0x1f, CTRL, -1 }, { 0x300, 0x36f, COMB, 0 }, { 0x4e00, 0x9fbf, WIDE, 2 }, { 0x1f600, 0x1f64f, EMOJI, 2 }, { 0x2764, 0x2764, HALF, 1 }, { 0x1f1e6, 0x1f1ff, FLAG, 0 }, { 0x200d, 0x200d, ZWJ, 0 }, { 0xfe0f, 0xfe0f, VS, 0 }, { 0x1f3fb, 0x1f3ff, VS, 2 }, { 0x2640, 0x2640, SIGN, 1 }, { 0x203c, 0x203c, HALF, 1 }, { 0xc0, 0x24f, ORD, 1 } };
extern "C" void harness_main() {
    g_color_emoji = H_EMOJI;
    if (H_MODE == 0) {
        unsigned c = (unsigned)sx_int(0, 0x10ffff, "c"); sx_assume(c < 0xd800 || c > 0xdfff); int lo = 0, hi = (int)(sizeof(WIDTHS) / sizeof(*WIDTHS)) - 1;
        int w = wcwidth(c); while (lo < hi) { int m = (lo + hi + 1) / 2; if (sx_conc(c >= WIDTHS[m].first)) lo = m; else hi = m - 1; }
        int e = WIDTHS[lo].w[H_EMOJI]; sx_check(w >= -1 && w <= 2, "width of a code point"); if (e != 9) { sx_check(w == e, "width of a character"); if (e == 2) sx_cover("wide"); if (!e) sx_cover("zero"); } sx_obs((sx_u64)w); return;
    }
    int n = hx_len(0, H_N, "n"), k[8], len = 0; unsigned u[8]; char buf[64]; int at[9];
    for (int i = 0; i < n; i++) { k[i] = sx_pick(sizeof(P) / sizeof(*P), "p"); at[i] = len; u[i] = P[k[i]].c == P[k[i]].hi ? P[k[i]].c : (unsigned)sx_int(P[k[i]].c, P[k[i]].hi, "c"); sx_assume(u[i] != 0xa9 && u[i] != 0xae); len += enc(u[i], buf + len); } at[n] = len;
    char* s = (char*)malloc(len + 1); for (int i = 0; i < len; i++) s[i] = buf[i]; s[len] = 0; if (sx_pick(2, "rest")) s[len] = 'z'; else len = -1; // text ends by its length, or by its NUL
    wcwidth_iter it(s, len); unsigned total = 0, ctl = 0; int i = 0;
    while (i < n) {
        // the characters of the next cell run, and its width
        int j = i + 1, w = P[k[i]].w, kind = P[k[i]].kind, em = 0; if (kind == COMB || kind == ZWJ || (kind == VS && !w)) w = 1; if (!H_EMOJI && kind == VS && P[k[i]].c > 0xffff) w = 1; if (!H_EMOJI && kind == EMOJI) w = 1; if (kind == FLAG) w = 1;
        int run = 1;
        if (kind == CTRL) run = 0;
        else if (H_EMOJI) {
            if (kind == FLAG && j < n && P[k[j]].kind == FLAG) { j++; w = 2; em = 1; run = 0; }
            else if (kind == EMOJI || kind == HALF || kind == VS || kind == SIGN) {
                run = 0; em = 1; if (kind == VS) w = 2;
                while (j < n) { int q = P[k[j]].kind; if (q == VS) { w = 2; j++; } else if (q == ZWJ) { w = 2; j++; if (j >= n) break; int r = P[k[j]].kind; if (r != EMOJI && r != HALF && r != SIGN) break; j++; } else break; }
            }
        }
        if (run) while (H_EMOJI && j < n && P[k[j]].kind == VS) { w = 2; em = 1; j++; } // (the console gives combining marks a cell of their own)
        sx_check(it.more(), "more text"); char32_t c = it.next(); sx_check(c == u[i], "first character of a cell run");
        sx_check(it.character_pointer() == s + at[i], "a cell run starts elsewhere"); sx_check((int)it.character_length() == at[j] - at[i], "a cell run ends elsewhere"); sx_check(it.character_wcwidth_signed() == w, "cells of a run");
        sx_check((!!it.character_is_emoji()) == (em != 0), "emoji"); sx_check(it.get_pointer() == s + at[j], "position"); if (len >= 0) sx_check((int)it.length() == at[n] - at[j], "rest");
        if (sx_pick(2, "back") == 1 && i == 0) { it.unnext(); sx_check(it.get_pointer() == s + at[i], "stepped back"); sx_check(it.next() == u[i] && it.get_pointer() == s + at[j] && it.character_wcwidth_signed() == w, "after stepping back"); }
        total += w < 0 ? 1 : w; ctl += w < 0 ? 2 : w; if (em) sx_cover("emoji"); if (j - i > 1) sx_cover("joined"); i = j;
    }
    sx_check(!it.more() && it.next() == 0, "end"); s[at[n]] = 0; sx_check(clink_wcswidth(s, at[n]) == total, "width of a text"); sx_check(clink_wcswidth_expandctrl(s, at[n]) == ctl, "width with control characters"); sx_obs(total);
}
