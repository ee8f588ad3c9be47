// Words and commands of an input line.
#include "hx.h"
#include "lib/word_collector.h"
#include "lib/cmd_tokenisers.h"
#include "core/settings.h"
#include "core/os.h"
setting_enum g_translate_slashes("match.translate_slashes", "x", "off,slash,backslash,system,auto", 0);
static cmd_command_tokeniser* ct; static cmd_word_tokeniser* wt; static word_collector* wc;
static int same(const word& a, const word& b) { return a.offset == b.offset && a.length == b.length && a.command_word == b.command_word && a.is_alias == b.is_alias && a.is_redir_arg == b.is_redir_arg && a.quoted == b.quoted; }
// What holds for the words and commands of any line.
static void structure(const char* s, int n, int limit, words& w, commands& c) {
    int p = 0;
    for (auto& x : c) { sx_check((int)x.offset >= p && (int)(x.offset + x.length) <= limit, "commands overlap, or lie outside the line"); 
        for (int i = p; i < (int)x.offset; i++) sx_check(!!strchr("&| ()@", s[i]), "text between commands"); p = x.offset + x.length; }
    for (int i = p; i < limit; i++) sx_check(!!strchr("&| ()@", s[i]) , "text after the last command");
    p = 0; size_t ci = 0; int have = 0;
    for (size_t k = 0; k < w.size(); k++) {
        auto& x = w[k]; int a = x.offset - x.quoted, b = x.offset + x.length;
        sx_check(a >= p && b <= limit, "words overlap, or lie outside the line"); p = b;
        if (x.quoted) sx_check(s[a] == '"', "quoted word without a quote");
        if (x.length || k + 1 < w.size()) { size_t o = ci; while (ci < c.size() && (int)(c[ci].offset + c[ci].length) < a) { ci++; } sx_check(ci < c.size() && a >= (int)c[ci].offset && b <= (int)(c[ci].offset + c[ci].length), "word outside the commands"); if (ci != o) have = 0; }
        if (x.command_word) have = 1;
    }
}
#ifndef H_DUPS
#define H_DUPS 1
#endif
#ifndef H_SEPS
#define H_SEPS 1
#endif
static int sep_pick(char* l, int& n) { static const char* S[] = { "&", "|", "&&", "||", " & ", " | ", "& ", " &" }; const char* p = S[sx_pick(H_SEPS, "sep")]; while (*p) l[n++] = *p++; return 1; }
extern "C" void harness_main() {
    settings::find("doskey.enhanced")->set("1");
    ct = new cmd_command_tokeniser; wt = new cmd_word_tokeniser; wc = new word_collector(ct, wt); 
#if H_ALIAS
    os::set_alias("al", "x $*");
#endif
    is_cmd_command("x");
    words w, w2; commands c, c2;
#if H_MODE == 0      // any line: structure, and nothing behind the cursor matters for completion
    str<> line(H_PRE); char* l = hx_alpha<char>(hx_len(0, H_N, "n"), H_ALPHA, "l"); int cmd = 1; for (int i = 0; l[i]; i++) { if (cmd) { l[i] = (char)sx_conc((unsigned char)l[i]); if (l[i] == ' ' && i && !strchr("&| (@", l[i - 1])) cmd = 0; } else { cmd = (l[i] == '&') | (l[i] == '|'); cmd = (int)sx_conc(cmd); } } /* the first word is looked up in hash tables */ line << l; const char* s = line.c_str(); int n = line.length();
    int cur = hx_len(0, n, "cur"); char* exact = (char*)malloc(n + 1); for (int i = 0; i <= n; i++) exact[i] = s[i];
    wc->collect_words(exact, n, cur, w, collect_words_mode::whole_command, &c); structure(exact, n, n, w, c);
    command_line_states st; st.set(exact, n, cur, w, collect_words_mode::whole_command, c);
    { size_t k = 0; for (auto& ls : st.get_linestates(exact, n)) { for (auto& x : ls.get_words()) { sx_check(k < w.size() && same(x, w[k]), "words of the commands differ from those of the line"); k++; } sx_check(ls.get_range_offset() + ls.get_range_length() <= (unsigned)n, "range"); } sx_check(k == w.size(), "words of commands are missing"); }
    for (auto& x : w) { sx_obs(x.offset); sx_obs(x.length); }
    sx_cover("line"); 
    wc->collect_words(exact, n, cur, w, collect_words_mode::stop_at_cursor, &c); structure(exact, n, cur, w, c);
    sx_check(!w.empty() && (int)(w.back().offset + w.back().length) <= cur, "the end word passes the cursor");
    char* upto = (char*)malloc(cur + 1); for (int i = 0; i < cur; i++) upto[i] = s[i]; upto[cur] = 0;
    wc->collect_words(upto, cur, cur, w2, collect_words_mode::stop_at_cursor, &c2);
    int eq = w.size() == w2.size(); if (eq) for (size_t k = 0; k < w.size(); k++) eq = eq && same(w[k], w2[k]);
    if (!(cur && s[cur - 1] == 94)) sx_check(eq, "text behind the cursor changes the words before it"); sx_cover("cursor");
#else                // lines made of known parts
    char l[160]; int n = 0; struct W { int a, b, first, redir, quoted; } e[12]; int k = 0; int first = 1, nc = 1;
    for (int i = 0; i < H_K; i++) {
        if (i) { int t = H_GS[sx_pick(sizeof(H_GS) - 1, "gap")] - 48; if (t == 0) l[n++] = ' '; else if (t == 1) { if (first) return; sep_pick(l, n); first = 1; nc++; } else if (t == 2) { l[n++] = ' '; l[n++] = ' '; } else if (t == 3) l[n++] = '\t'; else { if (first) return; l[n++] = t == 4 ? ',' : t == 5 ? '=' : ';'; } }
        int q = first ? H_FS[sx_pick(sizeof(H_FS) - 1, "first")] - 48 : H_KS[sx_pick(sizeof(H_KS) - 1, "kind")] - 48; W x = { n, 0, first, 0, 0 }; sx_u64 v;
        auto sym = [&](const char* al) { char* p = hx_alpha<char>(1, al, "c"); if (x.first) *p = (char)sx_conc((unsigned char)*p); l[n++] = *p; };
        switch (q) {
        case 0: l[n++] = 'x'; sym(".y\\:$%~"); l[n++] = 'z'; break;                                             // plain
        case 1: l[n++] = '"'; sym("x &|<>^,;="); sym("x &^"); l[n++] = '"'; x.quoted = 1; break;           // quoted: everything belongs to the word
        case 2: l[n++] = 'x'; l[n++] = '^'; sym("&|<>^x"); l[n++] = 'y'; break;                                  // escaped
        case 3: { int r = sx_pick(5, "redir"); static const char* R[] = { ">", "<", ">>", "2>", "2>>" }; for (const char* p = R[r]; *p; p++) l[n++] = *p; if (sx_pick(2, "space")) l[n++] = ' '; x.a = n; l[n++] = 'x'; sym("xy.:"); x.redir = 1; break; }
        case 4: { static const char* D[] = { "2>&1", "2>>&1", "1<&2" }; for (const char* p = D[sx_pick(H_DUPS, "dup")]; *p; p++) l[n++] = *p; x.a = -1; break; }                              // no word
        case 5: l[n++] = 'p'; l[n++] = '"'; sym("x &|<>^,"); l[n++] = '"'; l[n++] = 'q'; break;                  // quotes inside
        case 6: l[n++] = '-'; sym("xyz"); l[n++] = ':'; { W y = { x.a, n, x.first, 0, 0 }; e[k++] = y; x.a = n; x.first = 0; } sym("xyz"); break; // flag with value
        case 8: l[n++] = 'c'; l[n++] = 'd'; { W y = { x.a, n, x.first, 0, 0 }; e[k++] = y; x.a = n; } sym("\\.:/"); x.first = 0; l[n++] = 'x'; break;           // built in commands end where special characters begin
        case 7: l[n++] = '"'; l[n++] = 'x'; sym("y &|"); l[n++] = '"'; l[n++] = 'q'; x.quoted = 1; break;        // starts quoted
        }
        if (x.a >= 0) { x.b = n; if (q == 1) { x.a++; x.b--; } else if (x.quoted) x.a++; e[k++] = x; first = 0; }
    }
    if (first && k) return;                            // a command of its own without any word
    l[n] = 0; char* exact = (char*)malloc(n + 1); for (int i = 0; i <= n; i++) exact[i] = l[i];
    wc->collect_words(exact, n, n, w, collect_words_mode::whole_command, &c);
    sx_traces("line", l, 1); for (auto& x : w) sx_trace("word", x.offset * 1000 + x.length * 10 + x.is_redir_arg);
    int m = 0; for (auto& x : w) { if (!x.length) { int i = x.offset; while (l[i] == ' ') i++; sx_check(!l[i] || l[i] == '&' || l[i] == '|', "empty word"); continue; }   // only at the end of a command
        if (m == k) { m++; break; } W& y = e[m]; sx_trace("got", x.offset * 100 + x.length); sx_trace("want", y.a * 100 + y.b - y.a); sx_check((int)x.offset == y.a && (int)(x.offset + x.length) == y.b, "wrong word"); sx_check(x.command_word == y.first, "wrong first word"); sx_check(x.is_redir_arg == y.redir, "redirection"); sx_check(x.quoted == y.quoted, "quotes"); m++; }
    if (!k) { sx_check(w.size() == 1 && w[0].length == 0, "words of an empty line"); }
    else { sx_check(m == k, "number of words"); sx_cover("words"); }
    sx_check((int)c.size() == nc, "number of commands"); structure(exact, n, n, w, c); for (auto& x : w) { sx_obs(x.offset); sx_obs(x.length); }
#endif
}
