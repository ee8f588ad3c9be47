// Key bindings: which binding the keys typed reach, in which order it is offered to the modules, and what is left afterwards.
#include "hx.h"
#include "bind_resolver.h"
#include "binder.h"
#include "lib/editor_module.h"
static const char* esc_chord;
const char* get_bindable_esc() { return esc_chord; }
enum { MB = 12, ML = 80 };
struct B { char c[ML]; int n, mod, id, group, par; };
static B bs[MB]; static int nb; static int G[2]; static char mods[4][64];
static editor_module& mod(int i) { return *(editor_module*)mods[i]; }
static int dig(int c) { return c >= '0' && c <= '9'; }
// how the first n keys compare with a chord: -1 they are not the start of it, 0 a part of it, 1 all of it; *val gets the numbers
static int match(const B& b, const char* k, int n, unsigned* val = nullptr) {
    int i = 0, p = 0, v = 0;
    while (i < n) { if (p >= b.n) return -1; if (b.par && b.c[p] == '*') { if (!dig(k[i])) return -1; unsigned x = 0; while (i < n && dig(k[i])) x = x * 10 + (k[i++] - '0'); if (val) val[v++] = x; p++; } else { if (k[i] != b.c[p]) return -1; i++; p++; } }
    return p == b.n;
}
static int longest(int g, const char* k, int n) { int best = 0; for (int i = 0; i < nb; i++) if (bs[i].group == g) for (int l = best + 1; l <= n; l++) if (match(bs[i], k, l) >= 0) best = l; return best; }
static int prefix(int g, const char* k, int n) { // the keys begin a longer chord
    for (int i = 0; i < nb; i++) if (bs[i].group == g && !match(bs[i], k, n)) return 1;
    return 0; }
static int cand[MB * 2], candlen[MB * 2], nc;
static void candidates(int g, const char* k, int n) {
    nc = 0; if (!n) return;
    for (int l = longest(g, k, n); l >= 1; l--) for (int i = 0; i < nb; i++) if (bs[i].group == g && bs[i].n && match(bs[i], k, l) == 1) { cand[nc] = i; candlen[nc++] = l; }
    for (int i = 0; i < nb; i++) if (bs[i].group == g && !bs[i].n) { cand[nc] = i; candlen[nc++] = 1; }
}
static void add(binder& b, const char* t, int n, int g, int par) {
    B& x = bs[nb]; for (int i = 0; i < n; i++) x.c[i] = t[i]; x.c[n] = 0; x.n = n; x.group = G[g]; x.mod = nb & 1; x.id = nb + 1; x.par = par;
    char* s = (char*)malloc(n + 1); memcpy(s, x.c, n + 1); sx_check(b.bind(x.group, s, mod(x.mod), x.id, par), "bind"); free(s); nb++;
}
static void drive(binder& b, const char* keys, int n, int acts) {
    bind_resolver r(b); char buf[32]; int nbuf = 0, g = G[0];
    for (int k = 0; k < n; k++) {
        buf[nbuf++] = keys[k]; bool go = r.step(keys[k]), want = !prefix(g, buf, nbuf); sx_check(go == want, "waiting for the rest of a chord"); if (!go) { sx_check(!r.is_done(), "a chord is under way"); sx_cover("waiting"); continue; }
        candidates(g, buf, nbuf); int c = 0;
        for (;;) {
            auto bd = r.next(); sx_check(bool(bd) == (c < nc), "is there a binding"); if (!bd) break;
            B& e = bs[cand[c]]; int l = candlen[c]; str<16> ch; bd.get_chord(ch);
            sx_check(bd.get_id() == e.id, "id"); sx_check(bd.get_module() == &mod(e.mod), "module"); sx_check((int)ch.length() == l && hx_eqn(ch.c_str(), buf, l), "keys of the binding"); sx_obs(e.id); hx_obs(ch.c_str()); sx_check(r.more_than(l) == (nbuf > l), "more keys");
            if (e.n) { unsigned v[4] = {}; match(e, buf, l, v); int q = 0; if (e.par) for (int i = 0; i < e.n; i++) if (e.c[i] == '*') { uint32 x = 9; sx_check(bd.get_params().get(q, x) && (x == v[q] || v[q] > 65535), "number in the keys"); q++; sx_cover("number"); } sx_check((int)bd.get_params().count() == q, "count of numbers"); sx_cover("chord"); } else sx_cover("catch all");
            int act = acts ? sx_pick(acts, "act") : 0;
            if (act & 2) { g = g == G[0] ? G[1] : G[0]; r.set_group(g); sx_check(r.get_group() == g, "group"); sx_cover("group"); }
            if (!(act & 1)) { bd.claim(); sx_check(!bd, "claimed"); nbuf -= l; for (int i = 0; i < nbuf; i++) buf[i] = buf[i + l]; candidates(g, buf, nbuf); c = 0; if (nbuf) sx_cover("rest"); }
            else { if (act & 2) { candidates(g, buf, nbuf); c = 0; } else { c++; sx_cover("passed"); } }
            if (act & 2 && --acts < 3) acts = 2;
        }
        nbuf = 0; sx_check(r.is_done(), "done");
    }
}
extern "C" void harness_main() {
    binder b; G[0] = b.get_group(); G[1] = b.create_group("other"); sx_check(G[0] > 0 && G[1] > 0 && G[0] != G[1] && b.get_group("other") == G[1] && b.get_group("none") < 0, "groups");
#ifndef H_PAD
#define H_PAD 0
#endif
#if H_MODE == 0 // any chords
    for (int i = 0; i < H_B; i++) { int n = hx_len(0, H_L, "length"); char* t = hx_alpha<char>(n, "ab", "chord"); add(b, t, n, i >= 1 && H_ACTS > 2 ? sx_pick(2, "group") : 0, 0); }
    int n = hx_len(1, H_N, "keys"); char* k = hx_alpha<char>(n, "abc", "key"); drive(b, k, n, H_ACTS);
#elif H_MODE == 1 // chords with numbers
    static const char* T[] = { "$*;*L", "$*;*D", "$*A", "$a", "$", "" };
    for (int i = 0; i < 6; i++) if (i < 4 || sx_pick(2, "bound")) add(b, T[i], (int)strlen(T[i]), 0, i < 3);
    static const char A[] = "$7;LAa"; int n = hx_len(1, H_N, "keys"); char* k = (char*)malloc(n); sx_sym(k, n, "key"); k[0] = '$'; for (int i = 1; i < n; i++) { int ok = dig(k[i]); for (const char* a = A; *a; a++) ok |= k[i] == *a; sx_assume(ok); }
    drive(b, k, n, 0);
#elif H_MODE == 2 // the notation of chords
    esc_chord = sx_pick(2, "esc") ? "\\e[27~" : nullptr; int n = hx_len(1, H_N, "n"); char* t = hx_alpha<char>(n, H_ALPHA, "text"); char k[ML] = {}; int m = 0, ok = 1;
    if (H_PAD) { char* u = (char*)malloc(H_PAD + n + 1); memset(u, 'x', H_PAD); memcpy(u + H_PAD, t, n + 1); free(t); t = u; n += H_PAD; }
    for (int i = 0; i < n && ok;) {
        int c = t[i++]; if (c == '^') { k[m++] = i < n ? t[i++] & 31 : '^'; continue; } if (c != '\\') { k[m++] = c; continue; }
        if (i >= n) { k[m++] = '\\'; continue; } c = t[i++];
        if (c == 'C') { if (n - i < 2 || t[i] != '-') ok = 0; else { k[m++] = t[i + 1] & 31; i += 2; } }
        else if (c == 'M') { if (n - i < 2 || t[i] != '-') { ok = 0; continue; } i++; k[m++] = 27; if (t[i] == 'C' && i + 1 < n && t[i + 1] == '-') { if (i + 2 >= n) ok = 0; else { k[m++] = t[i + 2] & 31; i += 3; } } }
        else k[m++] = c == 'e' ? 27 : c == 't' ? 9 : c == 'n' ? 10 : c == 'r' ? 13 : c;
    }
    for (int i = 0; i < m; i++) sx_assume(k[i]); if (ok && m == 1 && k[0] == 27 && esc_chord) { memcpy(k, "\x1b[27~", 6); m = 5; sx_cover("esc"); }
    bool bound = b.bind(G[0], t, mod(0), 9); if (m > 63 || (m == 63 && !ok)) { sx_cover("too long"); sx_obs(bound); return; } // not claimed, but within its memory
    sx_check(bound == !!ok, "accepted"); if (H_PAD) { sx_cover(ok ? "accepted" : "rejected"); return; } B& x = bs[0]; if (!ok) { sx_cover("rejected"); add(b, "", 0, 0, 0); drive(b, "ab", 2, 0); return; } sx_cover("accepted");
    memcpy(x.c, k, m); x.n = m; x.id = 9; x.group = G[0]; nb = 1; drive(b, k, m, 0); int o = sx_int(0, m - 1, "other"); char was = k[o]; k[o] = (char)sx_int(1, 127, "key"); sx_assume(k[o] != was); drive(b, k, m, 0);
#else // which key sequences are bound
    for (int i = 0; i < H_B; i++) { int n = hx_len(i == H_B - 1 ? 0 : 1, H_L, "length"); char* t = hx_alpha<char>(n, "aZ\x1b", "chord"); if (n == 1 && *t == 27) return; add(b, t, n, 0, 0); }
    for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) if (i != j && bs[i].n) sx_assume(match(bs[j], bs[i].c, bs[i].n) < 0);
    int n = hx_len(1, H_N, "keys"); char* k = hx_alpha<char>(n, "aZ\x1b", "key"); if (prefix(G[0], k, n)) return;
    int all = nb && !bs[nb - 1].n, want = 0, only = all && sx_pick(2, "only"); if (only) sx_check(b.bind(G[1], "", mod(2), binder::id_catchall_only_printable), "bind");
    for (int i = 0; i < nb; i++) if (bs[i].n && match(bs[i], k, n) == 1) want = 1;
    if (want) sx_cover("bound"); else if (all && *k != 27) want = 1;
    bind_resolver r(b); int got = b.is_bound(G[0], k, n); sx_check(got == want, "is it bound"); sx_check(r.is_bound(k, n) == got, "resolver agrees"); sx_obs(got); if (!want) sx_cover("not bound");
    if (only) { int o = b.is_bound(G[1], k, n); sx_check(o == (*k == 27 ? -1 : 1), "eaten"); }
#endif
    sx_cover("end");
}
