// Colours of the input line: what was coloured last is what shows, classes of words only where nothing else was coloured.
#include "hx.h"
#include "line_state.h"
#include "word_classifications.h"
enum { MAX = 8 }; static const char BLANK = ' ';
static int L, op; struct Model { char f[MAX], w[MAX]; };
static void fill(Model& m) { for (int i = 0; i < MAX; i++) m.f[i] = m.w[i] = BLANK; }
static void apply(word_classifications& c, Model& m) {
    int words = sx_pick(2, "words"), over = sx_pick(2, "overwrite"); unsigned s, n; char face; sx_sym(&s, 4, "start"); sx_sym(&n, 4, "length"); sx_sym(&face, 1, "face");
    sx_assume(face != 0);
    for (int i = 0; i < L; i++) { char& x = words ? m.w[i] : m.f[i]; int in = (unsigned)i >= s && (unsigned)i - s < n; int ok = in & (over | (x == BLANK)); x = ok ? face : x; }
    c.apply_face(words, s, n, face, over); }
static void compare(word_classifications& c, const Model& m, const char* what) { int ok = 1; for (int i = 0; i < L; i++) ok &= c.get_face(i) == m.f[i]; sx_check(ok, what); for (int i = 0; i < L; i++) sx_obs((unsigned char)c.get_face(i)); unsigned p; sx_sym(&p, 4, "beyond"); sx_assume(p >= (unsigned)L); sx_check(c.get_face(p) == BLANK, "nothing beyond the line"); }
static void finish(word_classifications& c, Model& m) { c.finish(); for (int i = 0; i < L; i++) m.f[i] = m.f[i] == BLANK ? m.w[i] : m.f[i]; }
extern "C" void harness_main() {
    if (H_MODE == 0) {
        L = sx_pick(H_L + 1, "line"); static word_classifications c; static Model m; fill(m); c.init(L, 0, false); sx_check(c.length() == (unsigned)L, "length");
        for (op = 0; op < H_K; op++) apply(c, m);
        compare(c, m, "colours before words are added"); finish(c, m); compare(c, m, "colours, and words where there are none"); finish(c, m); compare(c, m, "finishing again changes nothing");
        static word_classifications t(static_cast<word_classifications&&>(c)); compare(t, m, "moved"); sx_check(t.length() == (unsigned)L && c.length() == 0, "moved away"); sx_cover(L ? "line" : "empty");
        if (sx_pick(2, "again")) { t.init(L, 0, false); fill(m); compare(t, m, "a new line has no colours"); sx_cover("again"); }
    } else if (H_MODE == 1) {       // equal or not
        L = 1 + sx_pick(H_L, "line"); static word_classifications a, b; static Model m, n; fill(m); fill(n); a.init(L, 0, false); b.init(L, 0, false); for (op = 0; op < H_K; op++) { apply(a, m); apply(b, n); }
        sx_check(a.equals(a), "equal to itself"); int same = 1; for (int i = 0; i < L; i++) same &= m.f[i] == n.f[i] && m.w[i] == n.w[i]; int e = a.equals(b); sx_obs(e); sx_check(e == same, "equal when all colours are the same"); sx_check(b.equals(a) == e, "either way"); sx_cover(e ? "equal" : "different");
    } else {        // colours by their codes
        static const char* const C[] = { "1", "31", "1;31", "38;5;7", "4", "31;1" }; static word_classifications a; a.init(3, 0, false); char f[6] = {}; int used = 0;
        for (int k = 0; k < H_K; k++) { int i = sx_pick(6, "colour"); char x = a.ensure_face(C[i]); sx_obs((unsigned char)x); sx_check(x && (unsigned char)x >= 128, "a face of its own"); if (f[i]) { sx_check(x == f[i], "the same colour has the same face"); sx_cover("same"); } else { for (int j = 0; j < 6; j++) sx_check(f[j] != x, "different colours have different faces"); f[i] = x; used++; } 
            for (int j = 0; j < 6; j++) if (f[j]) { const char* o = a.get_face_output(f[j]); sx_check(o && hx_eq(o, C[j]), "the code of the face"); } }
        char x; sx_sym(&x, 1, "face"); int known = 0; for (int j = 0; j < 6; j++) known |= f[j] && f[j] == x; sx_check(!!a.get_face_output(x) == known, "no code for other faces");
        static word_classifications b; b.init(2, &a, true); sx_check(b.can_show_argmatchers() && !a.can_show_argmatchers(), "argmatchers are shown as asked for"); for (int j = 0; j < 6; j++) if (f[j]) { const char* o = b.get_face_output(f[j]); sx_check(o && hx_eq(o, C[j]), "faces are taken over"); sx_check(b.ensure_face(C[j]) == f[j], "and found again"); }
        char s[8]; int n = used; for (;; n++) { s[0] = '9'; s[1] = ';'; s[2] = '0' + n / 100; s[3] = '0' + n / 10 % 10; s[4] = '0' + n % 10; s[5] = 0; char x = b.ensure_face(s); if (!x) break; sx_check(n < 100, "at most a hundred"); sx_check(hx_eq(b.get_face_output(x), s), "the code of a further face"); } sx_check(n == 100, "a hundred colours"); for (int j = 0; j < 6; j++) if (f[j]) sx_check(b.ensure_face(C[j]) == f[j] && hx_eq(b.get_face_output(f[j]), C[j]), "the first ones stay"); sx_cover("full");
    }
    sx_cover("end");
}
