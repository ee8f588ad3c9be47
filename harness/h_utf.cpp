// UTF-8/UTF-16 conversion.
#include "hx.h"
#include "core/str_iter.h"
#ifndef H_N
#define H_N 3
#endif
static int enc8(unsigned c, unsigned char* o) { if (c < 0x80) { o[0] = c; return 1; } if (c < 0x800) { o[0] = 0xc0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; } if (c < 0x10000) { o[0] = 0xe0 | c >> 12; o[1] = 0x80 | ((c >> 6) & 63); o[2] = 0x80 | (c & 63); return 3; } o[0] = 0xf0 | c >> 18; o[1] = 0x80 | ((c >> 12) & 63); o[2] = 0x80 | ((c >> 6) & 63); o[3] = 0x80 | (c & 63); return 4; }
static int enc16(unsigned c, wchar_t* o) { if (c < 0x10000) { o[0] = c; return 1; } c -= 0x10000; o[0] = 0xd800 + (c >> 10); o[1] = 0xdc00 + (c & 0x3ff); return 2; }
static unsigned scalar(const char* nm) { unsigned c = (unsigned)sx_int(1, 0x10ffff, nm); sx_assume(!(c >= 0xd800 && c < 0xe000)); return c; }
extern "C" void harness_main() {
    int op = sx_pick(5, "op");
    if (op <= 1) {          // valid text, any code points: both directions, exact content, appended to existing text
        int n = hx_len(0, H_N, "n"); unsigned char u8[4 * H_N + 1]; wchar_t u16[2 * H_N + 1]; int a = 0, b = 0; unsigned cp[H_N + 1];
        for (int i = 0; i < n; i++) { unsigned c = scalar("c"); cp[i] = c; a += enc8(c, u8 + a); b += enc16(c, u16 + b); } u8[a] = 0; u16[b] = 0;
        if (op == 0) {
            str<8> s("ab"); int r = to_utf8(s, u16); sx_cover("to8");
            sx_check((int)s.length() == a + 2 && r == a, "UTF-8 length"); if ((int)s.length() == a + 2) sx_check(s.c_str()[0] == 'a' && s.c_str()[1] == 'b' && hx_eqn((const unsigned char*)s.c_str() + 2, u8, a), "UTF-8 content");
            str<8> t; to_utf8(t, u16, b); sx_check(hx_eq(t.c_str(), (char*)u8), "UTF-8 content with length given");
            wstr_iter it(u16); for (int i = 0; i < n; i++) { sx_check(it.peek() == (int)cp[i] && it.next() == (int)cp[i], "UTF-16 iterator"); } sx_check(it.next() == 0 && !it.more(), "UTF-16 iterator end");
            sx_check((int)char_count(u16) == n, "UTF-16 character count");
            hx_obs(s.c_str());
        } else {
            wstr<8> s(L"ab"); int r = to_utf16(s, (char*)u8); sx_cover("to16");
            sx_check((int)s.length() == b + 2 && r == b, "UTF-16 length"); if ((int)s.length() == b + 2) sx_check(s.c_str()[0] == 'a' && s.c_str()[1] == 'b' && hx_eqn(s.c_str() + 2, u16, b), "UTF-16 content");
            str_iter it((char*)u8); for (int i = 0; i < n; i++) { sx_check(it.peek() == (int)cp[i] && it.next() == (int)cp[i], "UTF-8 iterator"); } sx_check(it.next() == 0 && !it.more(), "UTF-8 iterator end");
            sx_check((int)char_count((char*)u8) == n, "UTF-8 character count");
            hx_obs(s.c_str());
        }
    } else if (op == 2) {   // arbitrary UTF-16 including lone surrogates
        int n = hx_len(0, H_N + 1, "n"); wchar_t* w = hx_str<wchar_t>(n, "w"); unsigned char e[4 * H_N + 8]; int a = 0, bad = 0;
        for (int i = 0; i < n;) { unsigned c = (unsigned short)w[i]; if (c >= 0xd800 && c < 0xdc00 && i + 1 < n && (unsigned short)w[i + 1] >= 0xdc00 && (unsigned short)w[i + 1] < 0xe000) { c = 0x10000 + ((c - 0xd800) << 10) + ((unsigned short)w[i + 1] - 0xdc00); i += 2; } else { if (c >= 0xd800 && c < 0xe000) { c = 0xfffd; bad = 1; } i++; } a += enc8(c, e + a); } e[a] = 0;
        str<8> s; to_utf8(s, w); sx_cover("lone"); sx_check((int)s.length() == a, "length with unpaired surrogates"); if ((int)s.length() == a) sx_check(hx_eqn((const unsigned char*)s.c_str(), e, a), "unpaired surrogates become U+FFFD and nothing else changes");
        hx_obs(s.c_str()); free(w);
    } else if (op == 3) {   // fixed size output: stays inside, terminated, is a prefix of the full conversion
        int n = hx_len(0, H_N + 1, "n"); wchar_t* w = hx_str<wchar_t>(n, "w"); str<64> full; to_utf8(full, w); int cap = hx_len(1, 6, "cap"); char* o = (char*)malloc(cap); int r = to_utf8(o, cap, w); sx_cover("fixed8");
        int m = hx_slen(o); sx_check(r == m && m < cap, "fixed size UTF-8 result"); sx_check(m == ((int)full.length() < cap - 1 ? (int)full.length() : cap - 1), "fixed size UTF-8 result shorter than it could be"); sx_check(hx_eqn(o, full.c_str(), m), "fixed size UTF-8 result is not a prefix"); free(o); free(w);
    } else {                // arbitrary bytes, fixed size output
        int n = hx_len(0, H_N + 1, "n"); char* s = hx_str<char>(n, "b"); wstr<64> full; to_utf16(full, s); int cap = hx_len(1, 4, "cap"); wchar_t* o = (wchar_t*)malloc(cap * 2); int r = to_utf16(o, cap, s); sx_cover("fixed16");
        int m = hx_slen(o); sx_check(m <= r && r < cap, "fixed size UTF-16 result"); sx_check(hx_eqn(o, full.c_str(), m), "fixed size UTF-16 result is not a prefix");
        str_iter it(s); int steps = 0; while (it.more()) { const char* p = it.get_pointer(); const char* q = it.get_next_pointer(); it.next(); sx_check(it.get_pointer() > p && it.get_pointer() <= s + n && q == it.get_pointer(), "iterator makes no progress or passes the end"); steps++; }
        sx_obs(steps); free(o); free(s);
    }
}
