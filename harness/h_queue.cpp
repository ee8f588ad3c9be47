// The queue of pending input lines: everything comes out once, in order, by lines or by characters.
#include "hx.h"
#include <list>
#include "lib/line_queue.h"
#include "core/settings.h"
enum { MAXL = 16, MAXC = 64 };
struct Line { wchar_t t[MAXC]; int n, pos, flags; };
static Line q[MAXL]; static int nq;
static void wide(Line& l, const char* s) { for (; *s; s++) l.t[l.n++] = *s == '\x01' ? 0x00e9 : *s == '\x02' ? 0x65e5 : (wchar_t)(unsigned char)*s; }
static void utf(str_base& o, const char* s) { o.clear(); for (; *s; s++) { if (*s == '\x01') o.concat("\xc3\xa9"); else if (*s == '\x02') o.concat("\xe6\x97\xa5"); else o.concat(s, 1); } }
static int nl(const Line& l) { return l.n && l.t[l.n - 1] == '\n'; }
static void crlf(Line& l) { while (l.n && (l.t[l.n - 1] == '\n' || l.t[l.n - 1] == '\r')) l.n--; l.t[l.n++] = '\r'; l.t[l.n++] = '\n'; }
extern "C" void harness_main() {
    line_queue Q; str<> s; doskey d("shell"); d.add_alias("al", "x $1$Ty$T$Tz"); settings::find("doskey.enhanced")->set("1"); static const int F[] = { 8, 9, 2, 10, 0 };
    for (int k = 0; k < H_K; k++) {
        int op = sx_pick(5, "op");
        if (op <= 0) { // text pasted at the end: continues an unterminated line
            char* t = hx_alpha<char>(hx_len(0, H_N, "n"), H_ALPHA, "t"); int c = hx_slen(t); for (int i = 0; i + 1 < c; i++) sx_assume(t[i] != '\n'); utf(s, t); Q.enqueue_back(s.c_str());
            if (!c) continue;
            if (nq && !nl(q[nq - 1])) { wide(q[nq - 1], t); sx_cover("continued"); } else { Line& l = q[nq++]; l = Line(); l.flags = 2; wide(l, t); }
        } else if (op == 1) { // lines of a macro or of a script put in front
            std::list<queued_line> L; int c = hx_len(1, 2, "lines"), f = F[sx_pick(H_MACRO ? 5 : 4, "flags")]; Line add[2] = {}; for (int i = 0; i < c; i++) { char* t = hx_alpha<char>(hx_len(0, 1, "n"), H_ALPHA, "t"); if (f == 0) t = (char*)(sx_pick(2, "m") ? "al b" : "ab"); utf(s, t); L.emplace_back(str_moveable(s.c_str()), (dequeue_flags)f); add[i].flags = f; wide(add[i], t); crlf(add[i]); }
            Q.enqueue_front(L); sx_check(L.empty(), "list not taken over"); for (int i = nq; i--;) q[i + c] = q[i]; for (int i = 0; i < c; i++) q[i] = add[i]; nq += c; sx_cover("front");
        } else if (op == 2) { // a line
            dequeue_flags f = dequeue_flags::none; s.clear(); bool r = Q.dequeue_line(s, f); sx_check(r == (nq > 0), "is there a line");
            if (!nq) { sx_check((int)f == 6, "flags of an empty queue"); continue; }
            Line l = q[0]; for (int i = 1; i < nq; i++) q[i - 1] = q[i]; nq--; int fl = l.flags | (!nl(l) && l.n ? 4 : 0);
            if (l.flags == 0 && !l.pos && l.n > 2 && l.t[1] == 'l') { for (int i = nq; i--;) q[i + 3] = q[i]; nq += 3; static const char* M[] = { "y", "", "z" }; for (int i = 0; i < 3; i++) { q[i] = Line(); q[i].flags = 9; wide(q[i], M[i]); crlf(q[i]); } l.n = 0; wide(l, "x b"); sx_cover("macro"); }
            crlf(l); int p = l.pos > l.n ? l.n : l.pos; wstr<> w(s.c_str()); int cut = l.pos; { Line rest = {}; rest.n = 0; }
            // what is left of a line of which characters were taken already; its end is a line end again
            Line e = {}; for (int i = cut; i < l.n; i++) e.t[e.n++] = l.t[i]; if (cut > l.n - 2) { e.n = 0; crlf(e); } (void)p;
            sx_check((int)w.length() == e.n && hx_eqn(w.c_str(), e.t, e.n), "line"); sx_check((((int)f ^ fl) & 15) == 0, "flags of a line"); hx_obs(w.c_str()); sx_cover("line");
        } else if (op == 3) { // a character
            wchar_t c = 0; bool n = false, r = Q.dequeue_char(&c, n); sx_check(r == (nq > 0), "is there a character"); if (!nq) continue;
            Line& l = q[0]; sx_check(c == l.t[l.pos], "character"); sx_check(n == (!l.pos && nl(l)), "start of a whole line"); sx_obs(c); l.pos++; if (l.pos >= l.n) { for (int i = 1; i < nq; i++) q[i - 1] = q[i]; nq--; } sx_cover("char");
        } else { sx_check(Q.empty() == !nq, "empty"); sx_check(Q.incomplete() == (nq != 1 || !nl(q[0])), "incomplete"); if (sx_pick(2, "clear")) { Q.clear(); nq = 0; sx_check(Q.empty(), "cleared"); } }
        if (nq > MAXL - 4) return;
    }
    // whatever is left comes out as well
    for (int i = 0; i < nq; i++) { dequeue_flags f; s.clear(); if (q[i].flags == 0 && !q[i].pos && q[i].n > 2 && q[i].t[1] == 'l') return; sx_check(Q.dequeue_line(s, f), "a line is missing"); wstr<> w(s.c_str()); Line l = q[i]; crlf(l); int c = l.pos > l.n - 2 ? l.n - 2 : l.pos; sx_check((int)w.length() == l.n - c && hx_eqn(w.c_str(), l.t + c, l.n - c), "left over line"); }
    sx_check(Q.empty(), "empty at the end"); sx_cover("end");
}
