// Escape codes: the codes found in a text, in one piece or in two; their parameters; what the processor makes of them.
#include "hx.h"
#include "terminal/ecma48_iter.h"
struct Code { int type, code, from, len; };
static int isc0(int c) { return c < 0x20; }
// Codes of a text, up to the first malformed one.  Returns how many; *stop is where the well formed part ends.
static int ref(const char* s, int n, Code* o, int* stop, int* complete) {
    int i = 0, k = 0; *complete = 1;
    while (i < n) {
        int c = (unsigned char)s[i]; *stop = i;
        if (c == 0x1b) {
            if (i + 1 >= n) { *complete = 0; return k; }
            int d = (unsigned char)s[i + 1], j = i + 2;
            if (d == '[') {
                while (j < n && s[j] >= 0x30 && s[j] <= 0x3f) j++;
                while (j < n && s[j] >= 0x20 && s[j] <= 0x2f) j++;
                if (j >= n) { *complete = 0; return k; }
                if (s[j] < 0x40 || s[j] > 0x7e) { *complete = 0; return k; }
                o[k++] = Code{ecma48_code::type_c1, d, i, j + 1 - i}; i = j + 1;
            } else if (d == ']' || d == 'P' || d == '^' || d == '_' || d == 'X') {
                int nest = 0, end = -1;
                for (;;) {
                    if (j >= n) { *complete = 0; return k; }
                    int e = (unsigned char)s[j];
                    if (e == 0x1b) { if (j + 1 >= n) { *complete = 0; return k; } int f = s[j + 1]; if (f == '\\') { j += 2; if (d != 'X' && nest) { nest--; continue; } end = j; break; } if (f == ']' && d != 'X') { nest++; j += 2; continue; } *complete = 0; return k; }
                    if (d != 'X' && e == 7) { j++; if (nest) { nest--; continue; } end = j; break; }
                    if (d != 'X' && e < 0x20 && !(e >= 8 && e <= 13)) { *complete = 0; return k; }
                    j++;
                }
                o[k++] = Code{ecma48_code::type_c1, d, i, end - i}; i = end;
            } else if (d >= 0x40 && d <= 0x5f) { o[k++] = Code{ecma48_code::type_c1, d, i, 2}; i += 2; }
            else if (d >= 0x60 && d <= 0x7f) { o[k++] = Code{ecma48_code::type_icf, d, i, 2}; i += 2; }
            else { *complete = 0; return k; }
        } else if (isc0(c)) { o[k++] = Code{ecma48_code::type_c0, c, i, 1}; i++; }
        else { int j = i; while (j < n && !isc0((unsigned char)s[j])) j++; o[k++] = Code{ecma48_code::type_chars, 0, i, j - i}; i = j; }
    }
    *stop = n; return k;
}
// a list of codes with adjacent text merged, as one string: type, code, text, 1
static void feed(const char* s, int n, ecma48_state& st, str_base& out, int& last) {
    ecma48_iter it(s, st, n);
    while (const ecma48_code& c = it.next()) {
        int chars = c.get_type() == ecma48_code::type_chars;
        if (!chars || !last) { char h[3] = { (char)2, (char)('0' + c.get_type()), (char)(chars ? '-' : c.get_code() ? c.get_code() : '-') }; out.concat(h, 3); }
        out.concat(c.get_pointer(), c.get_length()); last = chars;
    }
}
extern "C" void harness_main() {
#if H_MODE == 3   // a long run of text
    int n = 65536 + hx_len(0, 2, "extra"); char* s = (char*)malloc(n + 5); memset(s, 'a', n); memcpy(s + n, "\x1b[m", 4);
    ecma48_state st; ecma48_iter it(s, st); const ecma48_code* c = &it.next(); sx_check((int)c->get_length() == n && c->get_type() == ecma48_code::type_chars, "length of a long text"); c = &it.next(); sx_check(c->get_type() == ecma48_code::type_c1 && c->get_length() == 3, "code after a long text"); sx_check(!it.next(), "end"); sx_obs(n); free(s);
#else
    str<> text(H_PRE); int m = hx_len(0, H_N, "n"); char* v = hx_alpha<char>(m, H_ALPHA, "v"); text << v << H_POST; const char* s = text.c_str(); int n = text.length();
    Code want[H_N + 16]; int stop = 0, complete; int k = ref(s, n, want, &stop, &complete); (void)stop;
#if H_MODE == 0   // one piece against the grammar; two pieces against one
    { ecma48_state st; ecma48_iter it(s, st); int i = 0, done = 0;
      while (const ecma48_code& c = it.next()) {
        sx_check(c.get_type() >= ecma48_code::type_chars && c.get_type() <= ecma48_code::type_icf, "type of a code");
        if (i < k) { sx_check(c.get_type() == want[i].type, "kind of code"); sx_check((int)c.get_length() == want[i].len && hx_eqn(c.get_pointer(), s + want[i].from, want[i].len), "text of a code"); if (want[i].type != ecma48_code::type_chars) sx_check((int)c.get_code() == want[i].code, "value of a code"); }
        else if (complete) sx_check(0, "more codes than there are");
        i++; done = c.get_type(); }
      sx_check(i >= k, "fewer codes than there are"); sx_obs(i); (void)done; sx_cover(complete ? "well formed" : "malformed"); }
    { str<> a, b; int la = 0, lb = 0; ecma48_state s1, s2; feed(s, n, s1, a, la); int cut = hx_len(0, n, "cut"); char* p1 = (char*)malloc(cut + 1); memcpy(p1, s, cut); p1[cut] = 0; char* p2 = (char*)malloc(n - cut + 1); memcpy(p2, s + cut, n - cut + 1);
      feed(p1, -1, s2, b, lb); free(p1); feed(p2, -1, s2, b, lb); free(p2); sx_check(hx_eq(a.c_str(), b.c_str()), "text in two pieces gives other codes than in one"); hx_obs(a.c_str()); }
#elif H_MODE == 1  // CSI parameters
    { ecma48_state st; ecma48_iter it(s, st); int i = 0;
      while (const ecma48_code& c = it.next()) { if (i >= k) break; 
        ecma48_code::csi<4> q; bool ok = c.decode_csi(q); int isc = want[i].type == ecma48_code::type_c1 && want[i].code == '['; sx_check(ok == !!isc, "which codes are CSI");
        if (ok) { const char* p = s + want[i].from + 2; const char* e = s + want[i].from + want[i].len - 1; int priv = *p >= 0x3c && *p <= 0x3f; sx_check(q.private_use == !!priv, "private"); sx_check((unsigned char)q.final == (unsigned char)*e, "final"); if (priv) p++;
          int par[H_N + 8], np = 0, cur = 0, any = 0, inter = 0; for (; p < e; p++) { if (*p >= '0' && *p <= '9') { cur = cur * 10 + *p - '0'; any = 1; } else if (*p == ';') { par[np++] = cur; cur = 0; any = 1; } else if (*p >= 0x20 && *p <= 0x2f) inter = *p; else if (*p == ':') any = 1; } if (any) par[np++] = cur;
          if (np > 4) { np = 4; sx_cover("many"); } sx_check(q.param_count == np, "parameter count"); for (int j = 0; j < np; j++) sx_check(q.get_param(j, -7) == par[j], "parameter"); sx_check(q.get_param(np, -7) == -7, "missing parameter"); sx_check(q.intermediate == (char)inter, "intermediate"); sx_cover("csi"); sx_obs(np); }
        i++; } }
#elif H_MODE == 2  // the processor
    { ecma48_state st; ecma48_iter it(s, st); str<> plain, all; int cells = 0; int attr[3] = {}, want_attr[3][40], ni = 0;
      while (const ecma48_code& c = it.next()) { all.concat(c.get_pointer(), c.get_length()); if (c.get_type() != ecma48_code::type_c1) plain.concat(c.get_pointer(), c.get_length()); }
      str<> o; unsigned n0 = 0, n1 = 0, n2 = 0, n3 = 0; ecma48_processor(s, &o, &n0); sx_check(hx_eq(o.c_str(), all.c_str()), "unchanged text"); hx_obs(o.c_str());
      o.clear(); ecma48_processor(s, &o, &n1, ecma48_processor_flags::plaintext); sx_check(hx_eq(o.c_str(), plain.c_str()), "plain text"); sx_check(n1 == n0, "cells of plain text");
      o.clear(); ecma48_processor(s, &o, &n2, ecma48_processor_flags::bracket); sx_check(n2 == n0, "cells of bracketed text"); ecma48_processor(s, nullptr, &n3); sx_check(n3 == n0, "cells without output");
      { str<> u, vis; int in = 0, bad = 0; for (const char* p = o.c_str(); *p; p++) { if (*p == 1) { bad |= in; in = 1; } else if (*p == 2) { bad |= !in; in = 0; } else { u.concat(p, 1); if (!in) vis.concat(p, 1); else sx_cover("bracketed"); } } sx_check(!bad && !in, "brackets are balanced"); sx_check(hx_eq(u.c_str(), all.c_str()), "bracketed text"); str<> nobel; for (const char* p = plain.c_str(); *p; p++) if (*p != 7) nobel.concat(p, 1); sx_check(hx_eq(vis.c_str(), nobel.c_str()), "everything invisible is bracketed"); }
      // colourless: underline, italic and strike as before, no colours
      str<> cl; ecma48_processor(s, &cl, nullptr, ecma48_processor_flags::colorless);
      for (int pass = 0; pass < 2; pass++) { ecma48_state st2; ecma48_iter it2(pass ? cl.c_str() : s, st2); int a[3] = {}, color = 0, x = 0; 
        while (const ecma48_code& c = it2.next()) {
          if (c.get_type() != ecma48_code::type_c1) { for (unsigned j = 0; j < c.get_length(); j++) { if (x < 40) for (int t = 0; t < 3; t++) { if (!pass) want_attr[t][x] = a[t]; else sx_check(x < ni && want_attr[t][x] == a[t], "underline, italic or strike changed"); } x++; } continue; }
          ecma48_code::csi<32> q; if (!c.decode_csi(q) || q.final != 'm') continue;
          if (!q.param_count) { a[0] = a[1] = a[2] = 0; color = 0; }
          for (int j = 0; j < q.param_count; j++) { int v = q.params[j]; if (v == 0) { a[0] = a[1] = a[2] = 0; color = 0; } else if (v == 3) a[0] = 1; else if (v == 23) a[0] = 0; else if (v == 4) a[1] = 1; else if (v == 24) a[1] = 0; else if (v == 9) a[2] = 1; else if (v == 29) a[2] = 0; else if (v == 38 || v == 48) { color = 1; if (j + 1 < q.param_count) j += q.params[j + 1] == 2 ? 4 : q.params[j + 1] == 5 ? 2 : 0; } else if ((v >= 30 && v < 50) || v >= 90) color = 1; }
          if (pass) sx_check(!color, "a colour is left"); else if (color) sx_cover("colour");
        }
        if (!pass) ni = x; else sx_check(x == ni, "visible text of colourless output"); } }
#endif
    free(v);
#endif
}
