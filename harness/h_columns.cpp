// Matches in columns: every layout is wide enough for what is in it, fits the screen, and has as many columns as fit.
#include "hx.h"
#include <vector>
#include "core/path.h"
#include "match_adapter.h"
#include "matches.h"
#include "column_widths.h"
enum { MAX = 8 };
static int count, w[MAX], d[MAX], desc, spaces, screen, bars; static char name[MAX][4];
static int at(const char* m) { for (int i = 0; i < MAX; i++) if (m == name[i]) return i; sx_check(0, "not a match"); return 0; }
extern "C" { int _rl_print_completions_horizontally, _rl_completion_prefix_display_length, _rl_complete_mark_directories, rl_visible_stats, rl_filename_display_desired; const int ellipsis_len = 3;
int __complete_get_screenwidth(void) { return screen; } char* __printable_part(char* p) { return p; } int __stat_char(const char*, char) { return 0; } char* rl_last_path_separator(const char*) { return 0; } }
const char* get_completion_prefix_color() { return 0; }
int32 __fnwidth(const char* s) { return w[at(s)]; }
bool use_vert_scrollbars() { return bars; } bool using_match_colors() { return false; }
void match_adapter::cached_info::clear() {} match_adapter::~match_adapter() {} void match_adapter::get_lcd(str_base& o) const { o.clear(); } uint32 match_adapter::get_match_count() const { return count; } const char* match_adapter::get_match(uint32 i) const { return name[i]; }
match_type match_adapter::get_match_type(uint32) const { return match_type::word; } uint32 match_adapter::get_match_visible_display(uint32 i) const { return w[i]; } bool match_adapter::is_append_display(uint32) const { return false; } bool match_adapter::use_display(uint32 i, match_type, bool) const { return i & 1; }
const char* match_adapter::get_match_description(uint32 i) const { return d[i] ? spaces ? "a   b" : "a" : 0; } uint32 match_adapter::get_match_visible_description(uint32 i) const { return d[i]; } bool match_adapter::has_descriptions() const { return desc; }
static int big(int a, int b) { return a > b ? a : b; }
static int width(const char* what, int lo, int hi) { static int left = H_FREE; if (--left < 0) return lo + sx_pick(hi + 1 - lo, what); unsigned char c; sx_sym(&c, 1, what); sx_assume(c >= lo && c <= hi); return c; }
// What the layout with N columns needs: the widths of its columns.
static int total(int n, int pad, const int* cell, const int* tail, int* col) {
    int a[MAX + 1], b[MAX + 1]; for (int j = 0; j < n; j++) a[j] = 1, b[j] = 0; int rows = (count + n - 1) / n;
    for (int i = 0; i < count; i++) { int j = _rl_print_completions_horizontally ? i % n : i / rows; a[j] = big(a[j], cell[i]); b[j] = big(b[j], tail[i]); }
    int t = pad * (n - 1); for (int j = 0; j < n; j++) t += col[j] = a[j] + b[j]; return t; }
extern "C" void harness_main() {
    _rl_print_completions_horizontally = sx_pick(2, "horizontally"); bars = sx_pick(2, "scrollbars"); screen = H_LO + sx_pick(H_SCREEN + 1 - H_LO, "screen");
    count = 1 + sx_pick(H_N, "matches"); desc = H_DESC; spaces = desc ? sx_pick(2, "formatted") : 0; int fit = H_SAME ? 1 + sx_pick(2, "fit") : 0, one = H_SAME ? sx_pick(2, "one-column") : 0;
    for (int i = 0; i < count; i++) { w[i] = width("width", 1, H_W); if (desc) { if (sx_pick(2, "described")) d[i] = width("description", 1, H_W); else d[i] = 0; } }
    if (spaces) { int any = 0; for (int i = 0; i < count; i++) any |= !!d[i]; if (!any) spaces = 0; }
    static match_adapter m; column_widths c = calculate_columns(m, fit == 0 ? 0 : fit == 1 ? -1 : 2, one);       // fitted, all the same, fitted up to two
    int pad = desc ? 4 : 2, sw = screen - (bars && !desc && screen > 1), n = (int)c.num_columns(), small = desc && !spaces, fitted = !one && (fit == 0 || (fit == 2 && count <= 2));
    sx_check(n >= 1, "at least one column"); sx_check((int)c.m_max_match_len_in_column.size() == n, "as many widths of matches as columns"); sx_check(c.m_col_padding == pad, "padding between the columns"); if (one) sx_check(n == 1, "one column was asked for"); sx_obs(n);
    int rows = (count + n - 1) / n, sum = pad * (n - 1), cell[MAX], tail[MAX], col[MAX + 1], w0 = 0, d0 = 0, c0 = 0;
    for (int j = 0; j < n; j++) { sum += c.column_width(j); sx_obs(c.column_width(j)); }
    for (int i = 0; i < count; i++) { int j = _rl_print_completions_horizontally ? i % n : i / rows, need = w[i] + (d[i] ? d[i] + c.m_desc_padding + (c.m_right_justify ? 2 : 0) : 0); sx_check(j < n, "every match is in a column"); sx_check(c.column_width(j) >= need, "the column is wide enough for the match and its description"); sx_check(c.max_match_len(j) >= w[i], "the column is wide enough for the match"); 
        int dd = d[i] ? d[i] + (small ? 4 : 4) : 0; cell[i] = small ? w[i] + dd : w[i]; tail[i] = small ? 0 : dd; w0 = big(w0, w[i]); d0 = big(d0, dd); c0 = big(c0, w[i] + dd); }
    if (n > 1) { sx_check(sum < sw, "several columns fit the screen"); sx_cover("several"); } else sx_cover("single");
    sx_check(!c.m_right_justify || small, "formatted descriptions aren't moved"); sx_check(c.m_desc_padding == (desc ? c.m_right_justify ? 2 : 4 : 0), "padding before descriptions");
    int most = big(1, (sw + pad - 1) / (1 + pad)); if (most > count) most = count;
    if (fitted) { for (int k = n + 1; k <= most; k++) sx_check(total(k, pad, cell, tail, col) > sw - 2, "no more columns fit"); if (n > 1) { total(n, pad, cell, tail, col); for (int j = 0; j < n; j++) sx_check(c.column_width(j) == col[j], "no column is wider than needed"); sx_cover("fitted"); } }
    else { if (!one) sx_check((n + 1) * (c0 + pad) > sw + pad - 1, "no more columns of that width fit"); for (int j = 1; j < n; j++) sx_check(c.column_width(j) == c.column_width(0), "all columns are the same"); if (n > 1) sx_check(c.column_width(0) == c0, "no wider than needed"); sx_cover("same"); }
    sx_cover("end");
}
