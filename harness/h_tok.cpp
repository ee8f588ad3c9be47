// str_tokeniser: the tokens and delimiters it reports make up the input again.
#include "hx.h"
#include "core/str_tokeniser.h"
#ifndef H_N
#define H_N 5
#endif
extern "C" void harness_main() {
    int n = hx_len(0, H_N, "n"); char* s = hx_alpha<char>(n, H_ALPHA, "s");
    str_tokeniser t(s, " ,"); int q = sx_pick(3, "quotes"); if (q) t.add_quote_pair("\""); if (q == 2) t.add_quote_pair("()");
    int pos = 0, cnt = 0;
    for (;;) {
        // what the next token must be
        int d = pos; while (s[d] == ' ' || s[d] == ',') d++;
        int e = d; int close = 0;
        while (s[e]) { if (close) { if (s[e] == close) close = 0; e++; continue; } if (s[e] == ' ' || s[e] == ',') break; if (q && s[e] == '"') close = '"'; else if (q == 2 && s[e] == '(') close = ')'; e++; }
        int pd = t.peek_delims(); sx_check(pd == d - pos, "peek_delims");
        const char* st; int len; str_token tok = t.next(st, len);
        if (e == d) { sx_check(!tok, "token past the end"); sx_cover("end"); sx_check(len == 0 && st == s + n, "end position"); break; }
        sx_check(!!tok, "token missed"); sx_check(st == s + d && len == e - d, "token extent");
        sx_check((char)tok.delim == (d > pos ? s[d - 1] : 0), "delimiter before the token");
        pos = e; cnt++; sx_cover("token"); sx_check(t.get_pointer() == s + pos, "position");
    }
    sx_obs(cnt);
    str_tokeniser u(s, " ,"); str<8> o; int c2 = 0; while (u.next(o)) { c2++; sx_check(o.length() > 0, "empty token"); for (unsigned i = 0; i < o.length(); i++) sx_check(o.c_str()[i] != ' ' && o.c_str()[i] != ',', "delimiter inside a token"); }
    // strip quotes: exactly the quotes are removed
    str<8> st("x"); concat_strip_quotes(st, (const char*)s); int k = 1; int ok = st.c_str()[0] == 'x'; for (int i = 0; i < n; i++) if (s[i] != '"') { ok &= st.c_str()[k] == s[i]; k++; } sx_check(ok && (int)st.length() == k, "concat_strip_quotes");
    free(s);
}
