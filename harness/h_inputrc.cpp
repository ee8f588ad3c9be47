// Lines of an inputrc file do what they say: key sequences, macros, variables, conditional parts.
#include "hx.h"
#include <stdio.h>
#include <wchar.h>
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/history.h>
#include <readline/rlprivate.h>
extern const int c_clink_version = 10090003; extern int _rl_completion_columns, _rl_completion_prefix_display_length, rl_completion_query_items, _rl_keyseq_timeout, _rl_bell_preference;
const char* _rl_default_init_file; int _rl_default_init_file_optional_set, _rl_inputrc_optional_set, _rl_load_user_init_file = 1; char* _rl_comment_begin; char* _rl_isearch_terminators;
int wcw(char32_t) { return 1; } int (*wcwidth)(char32_t) = wcw; int _rl_utf8locale; int cmd_one(int, int) { return 0; } int cmd_two(int, int) { return 0; } int hooked_fprintf(FILE*, const char*, ...) { return 0; } int hooked_fflush(FILE*) { return 0; } int hooked_vfprintf(FILE*, const char*, va_list) { return 0; }
char* _rl_untranslate_macro_value(char*, int); Keymap rl_make_bare_keymap(void); }
enum { MAX = 24 };
struct Keys { int n; unsigned char b[MAX]; void add(int c) { if (n < MAX) b[n++] = (unsigned char)c; } };
static int oct(int c) { return c >= '0' && c <= '7'; } static int hex(int c) { return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }
static int ctrl(int c) { return c == '?' ? 0x7f : hx_up(c) & 0x1f; }
// The manual's key sequences; Alt is an escape character in front.
static Keys keys_of(const char* s) {
    Keys k = {}; int c, meta = 0, control = 0;
    while (*s || meta || control) {
        int last = !*s; c = (unsigned char)*s;
        if (!last) s++;
        if (c == '\\' && *s) { c = (unsigned char)*s++;
            if (c == 'C' && *s == '-') { s++; control = 1; continue; } if (c == 'M' && *s == '-') { s++; meta = 1; continue; }
            if (oct(c)) { c -= '0'; for (int i = 0; i < 2 && oct(*s); i++) c = c * 8 + *s++ - '0'; c &= 0xff; }
            else if (c == 'x') { if (hex(*s) >= 0) { c = 0; for (int i = 0; i < 2 && hex(*s) >= 0; i++) c = c * 16 + hex(*s++); } }
            else { const char* n = "abdefnrtv"; const char* v = "\a\b\x7f\x1b\f\n\r\t\v"; for (int i = 0; n[i]; i++) if (c == n[i]) { c = v[i]; break; } } }
        if (control) c = ctrl(c); if (meta) { k.add(0x1b); c &= 0x7f; } k.add(c); meta = control = 0; if (last) break; }
    return k; }
// Where a quoted text ends; a backslash takes the next character along.
static int ends(const char* s, int q) { int i = 0; for (; s[i] && s[i] != q; i++) if (s[i] == '\\' && s[i + 1]) i++; else if (s[i] == '\\') return -1; return s[i] ? i : -1; }
static Keymap g_map;
static KEYMAP_ENTRY& at(const Keys& k, int* shadowed = 0) { Keymap m = g_map; static KEYMAP_ENTRY none; if (shadowed) *shadowed = 0; for (int i = 0; i < k.n; i++) { KEYMAP_ENTRY& e = m[k.b[i]]; if (i + 1 == k.n) { if (e.type == ISKMAP) { if (shadowed) *shadowed = 1; return ((Keymap)e.function)[ANYOTHERKEY]; } return e; } if (e.type != ISKMAP) { none.type = ISFUNC; none.function = 0; return none; } m = (Keymap)e.function; } none.type = ISFUNC; none.function = 0; return none; }
// Exactly these keys, and nothing else, are bound in the map.
static void only(const Keys& k, int type) {
    Keymap m = g_map; for (int i = 0; i < k.n; i++) { for (int c = 0; c < KEYMAP_SIZE; c++) if (c != k.b[i]) { if (m[c].type != ISFUNC || m[c].function) { sx_check(0, "nothing else is bound"); return; } } if (i + 1 < k.n) { sx_check(m[k.b[i]].type == ISKMAP, "its beginning is a prefix"); if (m[k.b[i]].type != ISKMAP) return; m = (Keymap)m[k.b[i]].function; } else { sx_check(m[k.b[i]].type == type, "kind of binding"); if (type == ISFUNC) sx_check(m[k.b[i]].function == rl_abort, "the command"); } }
    int t = -1; rl_command_func_t* f = rl_function_of_keyseq_len((char*)k.b, k.n, g_map, &t); sx_check(t == type && (type == ISMACR || f == rl_abort), "looking the keys up"); }
static int line(char* s) { char* p = (char*)malloc(strlen(s) + 1); strcpy(p, s); int r = rl_parse_and_bind(p); free(p); sx_obs((sx_u64)r); sx_obs((sx_u64)_rl_keyseq_timeout); return r; }
static void fresh() { g_map = rl_make_bare_keymap(); rl_set_keymap(g_map); }
static char* text(const char* name) { int n = hx_len(0, H_N, "length"); char* s = hx_alpha<char>(n, H_ALPHA, name); return s; }
static const char* cased(const char* s, char* to) { int how = sx_pick(3, "case"); int i = 0; for (; s[i]; i++) to[i] = how == 1 ? (char)hx_up(s[i]) : how == 2 && s[i] >= 'A' && s[i] <= 'Z' ? (char)(s[i] + 32) : s[i]; to[i] = 0; return to; }
static void keyseq() {
    fresh(); char* t = text("text"); for (int i = 0; t[i]; i++) t[i] = (char)sx_conc(t[i]); char buf[80]; sprintf(buf, "\"%s\": abort", t); int e = ends(buf + 1, '"'); sx_assume(e == (int)strlen(t)); int r = line(buf); Keys k = keys_of(t); sx_check(r == 0, "a good line");
    if (!k.n) return; only(k, ISFUNC); sx_cover("bound"); for (int i = 0; i < k.n; i++) sx_obs(k.b[i]); }
static void macro() {
    fresh(); char* t = text("text"); char buf[80]; int q = sx_pick(2, "quote") ? '"' : '\''; sprintf(buf, "\"\\C-x\": %c%s%c%s", q, t, q, sx_pick(2, "behind") ? "  " : ""); int e = ends(buf + 9, q); sx_assume(e == (int)strlen(t)); int r = line(buf); sx_check(r == 0, "a good line"); Keys x = {}, k = keys_of(t); x.add(24);
    KEYMAP_ENTRY& m = at(x); sx_check(m.type == ISMACR, "a macro is bound"); if (m.type != ISMACR) return; const char* s = (const char*)m.function; int same = 1; for (int i = 0; i < k.n; i++) same &= (unsigned char)s[i] == k.b[i]; sx_check(same && s[k.n] == 0, "the keys it gives"); only(x, ISMACR); sx_cover("bound"); }
static void names() {
    fresh(); static const struct { const char* n; int c; } N[] = { { "DEL", 0x7f }, { "ESC", 27 }, { "ESCAPE", 27 }, { "LFD", 10 }, { "NEWLINE", 10 }, { "RET", 13 }, { "RETURN", 13 }, { "RUBOUT", 0x7f }, { "SPACE", 32 }, { "SPC", 32 }, { "TAB", 9 } };
    static const struct { const char* p; int control, meta; } P[] = { { "", 0, 0 }, { "Control-", 1, 0 }, { "C-", 1, 0 }, { "Meta-", 0, 1 }, { "M-", 0, 1 }, { "Control-Meta-", 1, 1 }, { "C-M-", 1, 1 }, { "M-C-", 1, 1 }, { "Meta-C-", 1, 1 } };
    char b1[20], b2[20], one[2] = {}; int p = sx_pick(sizeof(P) / sizeof(*P), "prefix"), n = sx_pick(sizeof(N) / sizeof(*N) + 1, "name"), c; const char* name;
    if (n == sizeof(N) / sizeof(*N)) { c = (int)sx_conc(sx_int(0x21, 0x7e, "char")); sx_assume(c != '"' && c != '#' && c != '$' && c != ':' && c != '-' && c != '\\'); if (P[p].control) sx_assume(c != '@' && c != '`' && c != '?' && c != ' '); if (P[p].control) sx_assume((c & 0x1f) != 0); one[0] = (char)c; name = one; } else { c = N[n].c; name = cased(N[n].n, b1); sx_assume(!(P[p].control && (c & 0x1f) == 0)); }
    char buf[80]; static const char* const seps[] = { ": ", ":", ":\t " }; const char* p0 = sx_pick(2, "before") ? " " : ""; const char* p1 = cased(P[p].p, b2); const char* p2 = seps[sx_pick(3, "separator")]; const char* p3 = sx_pick(2, "behind") ? " # why" : ""; sprintf(buf, "%s%s%s%sabort%s", p0, p1, name, p2, p3); int r = line(buf); sx_check(r == 0, "a good line"); Keys k = {}; if (P[p].meta) k.add(27); k.add(P[p].control ? hx_up(c) & 0x1f : c); only(k, ISFUNC); sx_cover("bound"); }
// Any number of bindings: each sequence does what it was bound to last.
static void many() {
    fresh(); int owner[14], kind[14]; char body[14]; for (int i = 0; i < 14; i++) kind[i] = 0;   // sequences of 1..3 keys out of two: 2 + 4 + 8
    for (int k = 0; k < H_K; k++) { int s = sx_pick(H_LEN == 2 ? 6 : 14, "sequence"), len = s < 2 ? 1 : s < 6 ? 2 : 3, bits = s < 2 ? s : s < 6 ? s - 2 : s - 6, what = sx_pick(4, "what"); char q[4] = {}; for (int i = 0; i < len; i++) q[i] = bits >> i & 1 ? 'b' : 'a'; (void)owner; int r;
        if (what == 3) { char m[2] = { (char)('0' + k), 0 }; r = rl_macro_bind(q, m, g_map); kind[s] = 3; body[s] = m[0]; } else { r = rl_bind_keyseq_in_map(q, what == 0 ? 0 : what == 1 ? cmd_one : cmd_two, g_map); kind[s] = what; } sx_check(r == 0, "bound"); sx_obs((sx_u64)s); if (what == 0) sx_cover("unbound");
        for (int t = 0; t < (H_LEN == 2 ? 6 : 14); t++) { int l = t < 2 ? 1 : t < 6 ? 2 : 3, bb = t < 2 ? t : t < 6 ? t - 2 : t - 6, shadow = 0; Keys x = {}; for (int i = 0; i < l; i++) x.add(bb >> i & 1 ? 'b' : 'a'); KEYMAP_ENTRY& e = at(x, &shadow); if (shadow) sx_cover("prefix");
            if (kind[t] == 3) sx_check(e.type == ISMACR && ((char*)e.function)[0] == body[t] && !((char*)e.function)[1], "the macro that was bound last"); else sx_check(e.type == ISFUNC && (kind[t] == 0 ? !e.function || e.function == _rl_null_function : e.function == (kind[t] == 1 ? cmd_one : cmd_two)), "the command that was bound last"); } } }
// $if, $else, $endif around lines that set something.
static int cmp_holds(int op, int a, int b) { return op == 0 || op == 1 ? a == b : op == 2 ? a != b : op == 3 ? a < b : op == 4 ? a <= b : op == 5 ? a > b : a >= b; }
static const char* const g_ops[] = { "=", "==", "!=", "<", "<=", ">", ">=" };
static void conditional() {
    fresh(); rl_readline_name = "clink"; rl_terminal_name = (char*)"xterm-256color"; rl_editing_mode = emacs_mode; int stack[H_K + 1], depth = 0, off = 0, value = 500; rl_variable_bind("keyseq-timeout", "500");
    for (int k = 0; k < H_K; k++) { char buf[80]; int kind = sx_pick(4, "line"), was = off;
        if (kind == 0) { sprintf(buf, "%sset keyseq-timeout %d", sx_pick(2, "indent") ? "\t " : "", k + 1); line(buf); if (!off) { value = k + 1; sx_cover("set"); } else sx_cover("skipped"); }
        else if (kind == 1) { static const struct { const char* t; int holds; } C[] = { { "mode=emacs", 1 }, { "mode=vi", 0 }, { "term=xterm", 1 }, { "term=xterm-256color", 1 }, { "term=xt", 0 }, { "clink", 1 }, { "Clink", 1 }, { "bash", 0 }, { "comment-begin == #", 1 }, { "comment-begin != #", 0 }, { "bell-style = visible", 0 }, { "completion-ignore-case = off", 1 }, { "completion-ignore-case == on", 0 }, { "isearch-terminators == x", 0 }, { "isearch-terminators != x", 1 }, { "active-region-start-color == x", 0 } };
            int c = sx_pick(H_CONDS, "condition"), holds; if (c < (int)(sizeof(C) / sizeof(*C))) { sprintf(buf, "$if %s", C[c].t); holds = C[c].holds; } else holds = 0, sprintf(buf, "$if"); line(buf); stack[depth++] = off; if (!off) off = !holds; if (was) sx_cover("nested"); }
        else if (kind == 2) { strcpy(buf, sx_pick(2, "upper") ? "$ELSE" : "$else"); line(buf); int outer = 0; for (int i = 0; i < depth; i++) outer |= stack[i]; if (depth && !outer) off = !off; }
        else { strcpy(buf, sx_pick(2, "indent") ? "$ endif # done" : "$endif"); line(buf); if (depth) off = stack[--depth]; }
        sx_check(_rl_keyseq_timeout == value, "only lines that hold are done"); }
    while (depth) { char buf[] = "$endif"; line(buf); depth--; } char buf[] = "set keyseq-timeout 77"; line(buf); sx_check(_rl_keyseq_timeout == 77, "all is closed"); }
static int number(char*& p, int digits, const char* name) { int v = 0; for (int i = 0; i < digits; i++) { int d = (int)sx_int(0, 9, name); *p++ = (char)('0' + d); v = v * 10 + d; } return v; }
static void version() {
    fresh(); rl_readline_name = "clink"; int cl = sx_pick(2, "which"), op = sx_pick(7, "operator"), sp1 = sx_pick(2, "space"), sp2 = sx_pick(2, "space"), parts = 1 + sx_pick(cl ? 3 : 2, "parts"), v[3] = {}; char buf[100], *p = buf;
    p += sprintf(p, "$if %s%s%s%s", cl ? "clink_version" : "version", sp1 ? " " : "", g_ops[op], sp2 ? " " : ""); v[0] = number(p, 1, "major"); if (parts > 1) { *p++ = '.'; v[1] = number(p, cl ? 1 + sx_pick(2, "digits") : 1, "minor"); } if (parts > 2) { *p++ = '.'; v[2] = number(p, 1 + sx_pick(2, "digits"), "patch"); } *p = 0; if (sx_pick(2, "comment")) strcpy(p, " # why");
    int mine[3] = { cl ? 1 : RL_VERSION_MAJOR, cl ? 9 : RL_VERSION_MINOR, cl ? 3 : 0 }, sign = v[0] != mine[0] ? (mine[0] < v[0] ? -1 : 1) : v[1] != mine[1] ? (mine[1] < v[1] ? -1 : 1) : mine[2] < v[2] ? -1 : mine[2] > v[2]; int holds = cmp_holds(op, sign, 0); _rl_keyseq_timeout = 5; line(buf); char set[] = "set keyseq-timeout 9", end[] = "$endif"; line(set); sx_check(_rl_keyseq_timeout == (holds ? 9 : 5), "version condition"); line(end); if (holds) sx_cover("holds"); else sx_cover("fails"); }
static int blank(int c) { return c == ' ' || c == '\t'; }
static void variables() {
    fresh(); static const struct { const char* n; int kind, *v; } V[] = { { "completion-ignore-case", 0, &_rl_completion_case_fold }, { "show-all-if-ambiguous", 0, &_rl_complete_show_all }, { "keyseq-timeout", 1, &_rl_keyseq_timeout }, { "completion-query-items", 2, &rl_completion_query_items }, { "completion-display-width", 3, &_rl_completion_columns }, { "comment-begin", 4, 0 }, { "bell-style", 5, &_rl_bell_preference }, { "isearch-terminators", 6, 0 }, { "completion-prefix-display-length", 1, &_rl_completion_prefix_display_length } };
    int i = sx_pick(sizeof(V) / sizeof(*V), "variable"), before = -5; char* t = text("value"), *b = t; while (blank(*b)) b++; int n = (int)strlen(b), quoted = 0; char nb[40], buf[120], val[40]; strcpy(val, b); if (V[i].v) before = *V[i].v;
    if (V[i].kind == 0) { int e = 0; while (val[e] && !blank(val[e])) e++; if (e) val[e] = 0; } else if (val[0] == '"') { int e = 1; for (; val[e] && val[e] != '"'; e++) if (val[e] == '\\' && val[e + 1]) e++; quoted = 1; for (int j = 1; j <= e; j++) val[j - 1] = j == e ? 0 : val[j]; } else { while (n && blank(val[n - 1])) val[--n] = 0; }
    const char* lead = sx_pick(2, "indent") ? "  " : ""; const char* word = sx_pick(2, "upper") ? "set" : "SET"; const char* vn = cased(V[i].n, nb); sprintf(buf, "%s%s %s %s", lead, word, vn, t); line(buf); const char* back = rl_variable_value(V[i].n);
    int num = atoi(val), want; (void)quoted;
    if (V[i].kind == 0) { want = !val[0] || !_stricmp(val, "on") || !strcmp(val, "1"); sx_check(*V[i].v == want, "boolean"); sx_check(back && !strcmp(back, want ? "on" : "off"), "read back"); sx_cover(want ? "on" : "off"); }
    else if (V[i].kind <= 3) { want = V[i].kind == 1 ? (num < 0 ? 0 : num) : V[i].kind == 2 ? (!val[0] ? 100 : num < 0 ? 0 : num) : !val[0] ? -1 : num; sx_check(*V[i].v == want, "number"); sx_check(back && atoi(back) == want, "read back"); }
    else if (V[i].kind == 4) { if (val[0]) { sx_check(back && !strcmp(back, val), "text"); sx_cover("text"); } else sx_check(back && !strcmp(back, "#"), "an empty text changes nothing"); }
    else if (V[i].kind == 5) { want = !val[0] || !_stricmp(val, "on") ? AUDIBLE_BELL : !_stricmp(val, "off") ? NO_BELL : before; sx_check(_rl_bell_preference == want, "bell"); }
    else { Keys k = {}; int e = 0; if (val[0] == '"' || val[0] == '\'') { for (e = 1; val[e] && val[e] != val[0]; e++) {} val[e] = 0; k = keys_of(val + 1); } else { while (val[e] && !blank(val[e])) e++; val[e] = 0; k = keys_of(val); } int same = _rl_isearch_terminators != 0; for (int j = 0; same && j < k.n; j++) same &= (unsigned char)_rl_isearch_terminators[j] == k.b[j]; sx_check(same && !_rl_isearch_terminators[k.n], "terminators"); } }
// What a macro's keys are written as is read back as the same keys.
static void written() { int n = hx_len(0, H_N, "length"); char* s = hx_str<char>(n, "keys"); for (int i = 0; i < n; i++) sx_assume((unsigned char)s[i] < 0x80); char* w = _rl_untranslate_macro_value(s, sx_pick(2, "escapes")); char* a = (char*)malloc(2 * strlen(w) + 1); int len = -1; sx_check(rl_translate_keyseq(w, a, &len) == 0 && len == n, "as many keys"); int same = 1; for (int i = 0; i < n && i < len; i++) same &= a[i] == s[i]; sx_check(same, "the same keys"); for (const char* p = w; *p; p++) { sx_check((unsigned char)*p >= 0x20 && (unsigned char)*p < 0x7f, "readable"); } sx_cover("written"); hx_obs(w); }
// Text as a key sequence, any characters.
static void translate() { int n = hx_len(0, H_N, "length"); char* t = hx_str<char>(n, "text"); Keys k = keys_of(t); char* a = (char*)malloc(2 * n + 1 + (n == 0)); int len = -1; sx_check(rl_translate_keyseq(t, a, &len) == 0, "translated"); sx_check(len == k.n, "as many keys"); int same = 1; for (int i = 0; i < k.n && i < len; i++) same &= (unsigned char)a[i] == k.b[i]; sx_check(same && !a[len], "the keys"); sx_cover("translated"); sx_obs((sx_u64)len); for (int i = 0; i < len; i++) sx_obs((unsigned char)a[i]); }
static void any() { fresh(); char* t = text("line"); char* p = (char*)malloc(strlen(t) + sizeof(H_PRE)); strcpy(p, H_PRE); strcat(p, t); line(p); sx_cover("parsed"); }
extern "C" void harness_main() { _rl_convert_meta_chars_to_ascii = 0; (H_MODE == 0 ? keyseq : H_MODE == 1 ? macro : H_MODE == 2 ? names : H_MODE == 3 ? many : H_MODE == 4 ? conditional : H_MODE == 5 ? version : H_MODE == 6 ? variables : H_MODE == 7 ? written : H_MODE == 8 ? translate : any)(); }
