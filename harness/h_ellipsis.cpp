// Text cut to a number of cells: what is kept, where the ellipsis goes, which escape codes survive.
#include "hx.h"
#include "core/base.h"
#include "lib/ellipsify.h"
#include "terminal/ecma48_iter.h"
enum { MAXT = 10 };
struct Tok { const char* s; int cells, code; };
static const Tok T[] = { { 0, 1, 0 }, { "\xe6\x97\xa5", 2, 0 }, { "\x1b[1m", 0, 1 }, { ".", 1, 0 }, { ":", 1, 0 }, { "\x1b[0m", 0, 1 }, { "\xc3\xa9", 1, 0 } };
struct Text { Tok t[MAXT]; int n; };
static int width(const Text& x, int from = 0) { int w = 0; for (int i = from; i < x.n; i++) w += x.t[i].cells; return w; }
static const Text* g_e;
static int addcut(str_base& o, const Text& x, int limit) { int w = 0; for (int i = 0; i < x.n; i++) { if (w + x.t[i].cells > limit) break; w += x.t[i].cells; o << x.t[i].s; } return w; }   // the ellipsis, as much as fits
static int right(const Text& x, int limit, const Text& e, str_base& o) {
    int w = 0, i = 0, ew = width(e); for (; i < x.n; i++) { if (!x.t[i].code && w + x.t[i].cells > limit - ew) break; w += x.t[i].cells; o << x.t[i].s; }
    if (limit > w) w += addcut(o, e, limit - w); return w; }
static int left(const Text& x, int limit, const Text& e, str_base& o, int from = 0) {
    if (width(x, from) <= limit) { for (int i = from; i < x.n; i++) o << x.t[i].s; return width(x, from); }
    int w = 0, ew = width(e), i = x.n; while (i > from && (x.t[i - 1].code || w + x.t[i - 1].cells <= limit - ew)) w += x.t[--i].cells;
    for (int j = from; j < i; j++) if (x.t[j].code) o << x.t[j].s; if (limit > w) w += addcut(o, e, limit - w); for (; i < x.n; i++) o << x.t[i].s; return w; }
extern "C" void harness_main() {
    Text x = {}, e = {}; int n = hx_len(0, H_N, "n"); str<> in; for (int i = 0; i < n; i++) { x.t[i] = T[sx_pick(H_KINDS, "tok")]; if (!x.t[i].s) { char* c = (char*)malloc(2); sx_sym(c, 1, "c"); c[1] = 0; sx_assume(c[0] >= 0x20 && c[0] < 0x7f); x.t[i].s = c; } x.n++; in << x.t[i].s; }
    static const int E[6][4] = { { 9 }, { -1 }, { 4, -1 }, { 3, 3, -1 }, { 1, -1 }, { 4, 3, 4, -1 } }; int ek = sx_pick(6, "ellipsis"); str<> et; const char* ep = nullptr;
    if (!ek) { e.n = 1; e.t[0] = { "\xe2\x80\xa6", 1, 0 }; } else { for (int i = 0; E[ek][i] >= 0; i++) { e.t[e.n++] = T[E[ek][i]]; et << T[E[ek][i]].s; } ep = et.c_str(); }
    int limit = (int)sx_int(0, H_LIM, "limit"); str<> o, want; bool cut = false; int W = width(x);
    if (H_MODE == 3) { // the form used for columns: always room for one cell
        sx_assume(ek == 0 && limit > 0); int w = ellipsify(in.c_str(), limit, o, false); if (W <= limit) want = in.c_str(); else W = right(x, limit, e, want);
        sx_check(hx_eq(o.c_str(), want.c_str()), "cut text"); sx_check(w == W && w <= limit, "reported width"); hx_obs(o.c_str()); if (W < width(x)) sx_cover("cut"); return; }
    int w = ellipsify_ex(in.c_str(), limit, (ellipsify_mode)H_MODE, o, ep, false, &cut); hx_obs(o.c_str()); int fits = W <= limit;
    sx_check(cut == !fits, "is it cut");
    if (fits) want = in.c_str();
    else if (H_MODE == 0) W = right(x, limit, e, want);
    else if (H_MODE == 1) W = left(x, limit, e, want);
    else { // path: the drive (and codes in front of it) stays when the rest can be cut to at least the ellipsis
        int i = 0, k = 0, last = 0; for (; i < n && k < 2; i++) { if (x.t[i].code) continue; if (k == 0 && !hx_isal(x.t[i].s[0])) break; if (k == 1 && x.t[i].s[0] != ':') break; k++; } int any = 0; for (int j = i; j < n; j++) any |= !x.t[j].code;
        if (k == 2 && any) { while (i < n && x.t[i].code) i++; } else i = 0, k = 0; str<> rest; (void)last;
        int dw = k, ok = 0, rw = 0; if (limit >= dw) { rw = left(x, limit - dw, e, rest, i); ok = rw >= width(e) && dw + rw <= limit; }
        if (ok) { for (int j = 0; j < i; j++) want << x.t[j].s; want << rest.c_str(); W = dw + rw; if (dw) sx_cover("drive"); } else W = right(x, limit, e, want);
    }
    sx_check(w == W && w <= limit, "reported width"); sx_check(hx_eq(o.c_str(), want.c_str()), "cut text"); sx_check((int)cell_count(o.c_str()) == w, "width of the cut text"); if (!fits) sx_cover("cut"); else sx_cover("fits");
}
