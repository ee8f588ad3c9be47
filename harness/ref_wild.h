// A reference matcher for wildcards; every: 0 no star crosses separators, 1 all do, 2 the last one does.
#pragma once
static int M[H_P + 2][H_F + 2], T[H_P + 2][H_F + 2];
static int lc(int c) { return c + 32 * ((c >= 'A') & (c <= 'Z')); }
static int isep(int c) { return (c == '/') | (c == '\\'); }
static int ref(const char* p, int pn, const char* f, int fn, int mode, int every, int trail) {
    int absorbed[H_P + 1];
    for (int i = 0; i <= pn; i++) absorbed[i] = i == 0 ? 0 : ((p[i] == '*') | (p[i] == '?')) & ((p[i - 1] == '*') | absorbed[i - 1]);
    int tail = 1;   // only wildcards from i on
    for (int i = pn; i >= 0; i--) {
        if (i == pn) for (int j = 0; j <= fn; j++) M[i][j] = j == fn;
        else {
            int c = p[i], star = c == '*', q = c == '?'; int wild = star | q; 
            int tstar = star & tail;      // run reaching the end of the pattern
            for (int j = fn; j >= 0; j--) {
                int d = j < fn ? f[j] : 0, in = j < fn; int ds = isep(d);
                int mq = in ? (1 ^ ds) & M[i + 1][j + 1] : M[i + 1][j];
                int cross = every == 1 ? 1 : (1 ^ ds);
                int ms = M[i + 1][j] | (in ? cross & M[i][j + 1] : 0); if (every) ms |= tstar;
                int x = c, y = d; if (mode) { x = lc(x); y = lc(y); } if (mode > 1) { x = x == '-' ? '_' : x; y = y == '-' ? '_' : y; }
                int ml = in ? (x == y) & M[i + 1][j + 1] : 0;
                int mp = in ? (isep(p[i + 1]) ? M[i + 1][j] : ds & T[i + 1][j + 1]) : 0; if (i + 1 == pn) mp = in ? ds & T[i + 1][j + 1] : 0;
                M[i][j] = absorbed[i] ? M[i + 1][j] : star ? ms : q ? mq : isep(c) ? mp : ml;
            }
            tail &= wild;
        }
        for (int j = fn; j >= 0; j--) T[i][j] = j == fn ? M[i][j] : isep(f[j]) ? T[i][j + 1] : M[i][j];
    }
    return M[0][0];
}
