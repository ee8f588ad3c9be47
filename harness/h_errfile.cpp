// What CMD wrote into the temporary file (exit code, directory stack) is read back line by line, from the ANSI code page or UTF-16.
#include "hx.h"
#include <stdio.h>
#include "errfile_reader.h"
// A single byte code page: byte B is character U+00B.
static int WINAPI acp(UINT, DWORD, LPCCH s, int n, LPWSTR d, int dn) { if (n < 0) n = (int)strlen(s) + 1; if (!dn) return n; if (dn < n) return 0; for (int i = 0; i < n; i++) d[i] = (unsigned char)s[i]; return n; }
extern "C" {
#ifdef SX_ENGINE
int WINAPI MultiByteToWideChar(UINT a, DWORD b, LPCCH s, int n, LPWSTR d, int dn) { return acp(a, b, s, n, d, dn); }
#else
void* __imp_MultiByteToWideChar = (void*)acp;
#endif
}
static const char F[] = "sx_errfile.tmp"; enum { MAX = 300, LINES = 4 };
static unsigned short T[LINES][MAX]; static int len[LINES], n_lines;
static void put(FILE* f, int c) { fputc(c & 255, f); if (H_WIDE) fputc(c >> 8, f); }
static int utf8(int c, unsigned char* o) { if (c < 0x80) { o[0] = c; return 1; } if (c < 0x800) { o[0] = 0xc0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; } o[0] = 0xe0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; }
extern "C" void harness_main() {
    static const int LONG[] = { H_LENGTHS }; int kinds = (int)(sizeof(LONG) / sizeof(LONG[0]));
    n_lines = 1 + sx_pick(H_K + 1, "lines");
    for (int i = 0; i < n_lines; i++) {
        int n = i ? LONG[sx_pick(kinds, "length")] : 1 + sx_pick(2, "digits"); len[i] = n;
        for (int j = 0; j < n; j++) if (!i) { unsigned char c; sx_sym(&c, 1, "digit"); sx_assume(c >= '0' && c <= '9'); T[i][j] = c; }
            else if (j < H_FREE || j == n - 1) { unsigned short c = 0; sx_sym(&c, H_WIDE ? 2 : 1, "text"); sx_assume(c && c != 10 && c != 13 && (c < 0xd800 || c > 0xdfff)); T[i][j] = c; } else T[i][j] = 'a' + j % 26; }
    int crlf = sx_pick(2, "crlf"), open_end = n_lines > 1 && len[n_lines - 1] ? sx_pick(2, "unterminated") : 0;
    FILE* f = fopen(F, "wb"); for (int i = 0; i < n_lines; i++) { for (int j = 0; j < len[i]; j++) put(f, T[i][j]); if (open_end && i == n_lines - 1) continue; if (crlf) put(f, 13); put(f, 10); } fclose(f);
    { errfile_reader r; sx_check(r.open(F), "opened"); str<> s;
      for (int i = 0; i < n_lines; i++) {
        sx_check(r.next(s), "there is a line"); const unsigned char* p = (const unsigned char*)s.c_str(); int at = 0, ok = 1;
        for (int j = 0; j < len[i]; j++) { unsigned char u[4]; int k = utf8(T[i][j], u); sx_check(at + k <= (int)s.length(), "the whole line"); for (int q = 0; q < k; q++) ok &= p[at + q] == u[q]; at += k; }
        sx_check(ok, "the text of the line"); sx_obs(at); for (int j = 0; j < at; j++) if (j < 8 || j > at - 4) sx_obs(p[j]); sx_check(at == (int)s.length(), "nothing more in the line"); sx_cover(len[i] ? len[i] > 60 ? "long" : "line" : "empty"); }
      sx_check(!r.next(s), "no further line"); sx_check(!r.next(s), "still no further line"); sx_check(s.empty(), "and no text"); }
    remove(F); errfile_reader none; sx_check(!none.open("sx_none.tmp"), "no file"); sx_cover("end");
}
