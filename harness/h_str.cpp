// str: every sequence of edits leaves the string a program would compute by hand.
#include "hx.h"
#ifndef H_K
#define H_K 2
#endif
#ifndef H_L
#define H_L 3
#endif
#ifndef H_CHT
#define H_CHT char
#endif
#ifndef H_START
#define H_START 0
#endif
typedef H_CHT T;
template<typename C> struct Sel; 
template<> struct Sel<char> { typedef str_base base; template<int H_N, bool G> using s = str<H_N, G>; typedef str_moveable mv; };
template<> struct Sel<wchar_t> { typedef wstr_base base; template<int H_N, bool G> using s = wstr<H_N, G>; typedef wstr_moveable mv; };
typedef Sel<T>::base Base;
static T ref[400]; static int rn;
static T* content(int n, const char* nm) {   // printable subset incl. whitespace
    T* p = (T*)malloc((n + 1) * sizeof(T)); if (n) sx_sym(p, n * sizeof(T), nm); p[n] = 0; return p;
}
static void agree(Base& s, const char* w) {
    const T* c = s.c_str(); int n = hx_slen(c);
    sx_check(n == (int)s.length(), "length() is not the distance to the terminator");
    sx_check(n < (int)s.size(), "terminator outside the buffer");
    sx_check(n == rn, w);
    if (n == rn) sx_check(hx_eqn(c, ref, n), w);
    sx_check(s.empty() == (n == 0), "empty()");
}
static void step(Base& s, int cap) {          // cap<0: growable
    int room = cap < 0 ? 1 << 20 : cap - 1 - rn;
    switch (sx_pick(9, "op")) {
    case 0: { int n = hx_len(0, H_L, "n"); T* p = content(n, "s"); int z = 0; while (z < n && p[z]) z++;   // concat of a C string
        bool r = s.concat(p); int put = z < room ? z : room; for (int i = 0; i < put; i++) ref[rn++] = p[i]; sx_check(r == (z <= room), "concat result"); sx_cover("concat"); free(p); break; }
    case 1: { int n = hx_len(0, H_L, "n"); T* p = content(n, "s"); int m = hx_len(0, n, "m"); int z = 0; while (z < m && p[z]) z++;
        bool r = s.concat(p, m); int put = z < room ? z : room; for (int i = 0; i < put; i++) ref[rn++] = p[i]; sx_check(r == (m <= room), "concat(n) result"); free(p); break; }
    case 2: { int n = hx_len(0, H_L, "n"); T* p = content(n, "s"); for (int i = 0; i < n; i++) sx_assume(p[i] != 0);
        bool r = s.concat_no_truncate(p, n); sx_check(r == (n <= room), "concat_no_truncate result"); if (n <= room) for (int i = 0; i < n; i++) ref[rn++] = p[i]; sx_cover("concat_no_truncate"); free(p); break; }
    case 3: { int n = hx_len(0, H_L, "n"); T* p = content(n, "s"); int z = 0; while (z < n && p[z]) z++; room = cap < 0 ? 1 << 20 : cap - 1;
        bool r = s.copy(p); rn = z < room ? z : room; for (int i = 0; i < rn; i++) ref[i] = p[i]; sx_check(r == (z <= room), "copy result"); sx_cover("copy"); free(p); break; }
    case 4: { int k = hx_len(0, rn < 6 ? rn : 6, "k"); if (rn > 6 && k == 6) k = rn - 1; s.truncate(k); rn = k; sx_cover("truncate"); break; }
    case 5: { s.trim(); while (rn && (ref[rn - 1] == ' ' || ref[rn - 1] == '\t' || ref[rn - 1] == '\r' || ref[rn - 1] == '\n')) rn--; int a = 0; while (a < rn && (ref[a] == ' ' || ref[a] == '\t')) a++; for (int i = a; i < rn; i++) ref[i - a] = ref[i]; rn -= a; sx_cover("trim"); break; }
    case 6: { if (sizeof(T) > 1) { s.clear(); rn = 0; break; } int n = hx_len(0, H_L, "n"); T* p = content(n, "s"); int z = 0; while (z < n && p[z]) z++;
        bool r = ((str_base&)(Base&)s).format_append("<%s>", (const char*)p); int full = z + 2; int k = 0; for (; k < full && k < room; k++) ref[rn++] = k == 0 ? '<' : k == full - 1 ? '>' : p[k - 1];
        sx_check(r == (full <= room), "format_append result"); sx_cover("format"); free(p); break; }
    case 7: { int n = hx_len(0, 70, "extra"); if (n != 0 && n != 1 && n != 63 && n != 70) sx_cut("only four reservations"); s.reserve(n); sx_cover("reserve"); break; }
    case 8: { T c; sx_sym(&c, sizeof(T), "c"); sx_assume(c != 0); int f = -1, l = -1; for (int i = 0; i < rn; i++) if (ref[i] == c) { if (f < 0) f = i; l = i; }
        int cc = sizeof(T) == 1 ? (unsigned char)c : (unsigned short)c;
        sx_check(s.first_of(cc) == f, "first_of"); sx_check(s.last_of(cc) == l, "last_of"); if (rn) { int i = hx_len(0, rn < 4 ? rn : 4, "i"); sx_check(s[i] == (i < rn ? ref[i] : 0), "operator[]"); } sx_cover("find"); break; }
    }
}
static void start(Base& s) { T ch[2] = {'x', 0}; for (int i = 0; i < H_START; i++) { s.concat(ch, 1); ref[rn++] = 'x'; } }
extern "C" void harness_main() {
    rn = 0;
    switch (sx_pick(4, "kind")) {
    case 0: { Sel<T>::s<H_START + 4, true> s; start(s); agree(s, "start"); for (int i = 0; i < H_K; i++) { step(s, -1); agree(s, "growable string content"); } break; }
    case 1: { Sel<T>::s<H_START + 4, false> s; start(s); for (int i = 0; i < H_K; i++) { step(s, H_START + 4); agree(s, "fixed size string content"); } break; }
    case 2: { T buf[H_START + 5]; buf[0] = 0; buf[H_START + 4] = 0x55; Base s(buf); s.clear(); start(s); for (int i = 0; i < H_K; i++) { step(s, H_START + 4); agree(s, "string over a caller's buffer"); } sx_check(buf[H_START + 4] == 0x55, "wrote past the buffer"); break; }
    case 3: { Sel<T>::mv s; start(s); for (int i = 0; i < H_K; i++) { step(s, -1); agree(s, "moveable string content"); }
        Sel<T>::mv t(static_cast<Sel<T>::mv&&>(s)); agree(t, "moved string content"); rn = 0; agree(s, "moved-from string is not empty"); T z[2] = {'z', 0}; s.concat(z); ref[0] = 'z'; rn = 1; agree(s, "moved-from string is not usable"); sx_cover("move"); break; }
    }
    sx_obs(rn);
}
