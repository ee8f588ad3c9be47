// Reading and searching the screen: line text, colours of a line, and the first line that has a text and a colour.
#include <stdio.h>
#include "hx.h"
#include "win_console.h"
#include "core/settings.h"
#include "core/os.h"
#include "terminal/terminal_out.h"
#include "terminal/screen_buffer.h"
#include "terminal/find_line.h"
#include "win_screen_buffer.h"
#include <process/process.h>
extern "C" HANDLE get_std_handle(DWORD) { return (HANDLE)8; }
bool detect_ucs2_limitation(bool) { return false; }
int FindBestPaletteMatch(const RGB_t&, const RGB_t (&)[16]) { return 0; }
bool __EnumProcesses(std::vector<DWORD>&) { return false; }
process::process(int32) {} int32 process::get_parent_pid() const { return 0; } bool process::get_file_name(str_base&, HMODULE) const { return false; } bool process::get_modules(std::vector<HMODULE>&) const { return false; }
namespace os { bool get_env(const char*, str_base&) { return false; } bool set_env(const char*, const char*) { return true; } bool get_current_dir(str_base&) { return false; } int32 get_errorlevel() { return 0; } }
#ifdef SX_ENGINE
extern "C" int WINAPI LCMapStringW(LCID, DWORD f, LPCWSTR s, int n, LPWSTR d, int dn) { if (!dn) return n; if (n > dn) return 0; for (int i = 0; i < n; i++) { wchar_t c = s[i]; d[i] = f == LCMAP_LOWERCASE ? (c >= 'A' && c <= 'Z' ? c + 32 : c) : (c >= 'a' && c <= 'z' ? c - 32 : c); } return n; }
#endif
static SxCon& C = sx_con;
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" void harness_main() {
    settings::find("terminal.emulation")->set("emulate");
    C.w = H_W; C.h = H_H; C.top = 0; C.bottom = C.h - 1; C.attr = 7; static win_screen_buffer scr; scr.open(); scr.begin();
    static const char TA[] = H_ALPHA; static const WORD AA[] = { 7, 0x17, 0x12 };
    for (int y = 0; y < C.h; y++) { wchar_t* s = hx_alpha<wchar_t>(C.w, H_ALPHA, "line"); for (int x = 0; x < C.w; x++) C.ch[y][x] = s[x]; for (int x = 0; x < C.w; x++) C.at[y][x] = H_ATTR ? AA[sx_pick(3, "colour")] : 7; }
    for (int y = 0; y < C.h; y++) { str<> t; sx_check(scr.get_line_text(y, t), "line text"); int n = C.w; while (n && C.ch[y][n - 1] == ' ') n--; sx_check((int)t.length() == n, "length of the line"); for (int i = 0; i < n; i++) sx_check(t.c_str()[i] == (char)C.ch[y][i], "text of the line");
        int d = 1; for (int x = 0; x < C.w; x++) d &= C.at[y][x] == 7; sx_check(scr.is_line_default_color(y) == d, "default colours"); }
    BYTE ats[2]; int na = 0, mask = 0xff; if (H_ATTR) { na = sx_pick(3, "colours"); for (int i = 0; i < na; i++) ats[i] = (BYTE)AA[sx_pick(3, "wanted")]; static const int MK[] = { 0xff, 0x0f, 0xf0 }; if (na) mask = MK[sx_pick(3, "mask")]; }
    for (int y = 0; na && y < C.h; y++) { int h = 0; for (int x = 0; x < C.w; x++) for (int i = 0; i < na; i++) h |= (C.at[y][x] & mask) == (ats[i] & mask); sx_check(scr.line_has_color(y, ats, na, (BYTE)mask) == h, "line has the colour"); }
    int n = hx_len(0, H_N, "n"); char* f = hx_alpha<char>(n, H_FIND, "find"); int ic = sx_pick(2, "ignore_case"); int start = sx_pick(C.h, "start"), dist = sx_pick(2 * C.h + 3, "distance") - C.h - 1;
    int want = -1; for (int y = start, k = dist; k && y >= 0 && y < C.h; k > 0 ? (y++, k--) : (y--, k++)) {
        int len = C.w; while (len && C.ch[y][len - 1] == ' ') len--; int b = 0, e = C.w;
        if (n) { int p = 0; for (; p + n <= len; p++) { int q = 0; while (q < n && (ic ? low(C.ch[y][p + q]) == low(f[q]) : C.ch[y][p + q] == f[q])) q++; if (q == n) break; } if (p + n > len) continue; b = p; e = p + n; sx_cover("text"); }
        int h = !na; for (int x = b; x < e; x++) for (int i = 0; i < na; i++) h |= (C.at[y][x] & mask) == (ats[i] & mask); if (!h) { sx_cover("other colour"); continue; }
        want = y; break; }
    int got = scr.find_line(start, dist, n ? f : nullptr, ic ? find_line_mode::ignore_case : find_line_mode::none, na ? ats : nullptr, na, (BYTE)mask); sx_check(got == want, "line found"); sx_obs((sx_u64)got); sx_cover(want < 0 ? "none" : "found"); scr.end(); sx_cover("end");
}
