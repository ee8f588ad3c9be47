// Keys and mouse events of the console become the documented sequences, in order, whether or not they were peeked at.
#include "hx.h"
#include "win_input.h"
#include "core/settings.h"
#include "core/os.h"
#include "terminal/terminal_in.h"
#include "terminal/key_tester.h"
#include "terminal/screen_buffer.h"
#include "terminal/terminal_helpers.h"
#include "terminal/scroll.h"
#include "terminal/../../src/win_terminal_in.h"
setting_enum g_default_bindings("clink.default_bindings", "", "", "bash,windows", 0);
void console_config::fix_quick_edit_mode(DWORD&) {}
setting_bool g_adjust_cursor_style("terminal.adjust_cursor_style", "", "", true);
extern "C" { void reset_wcwidths() {} DWORD cleanup_console_input_mode(DWORD m) { return m; } int32 show_cursor(int32) { return 0; } HANDLE get_std_handle(DWORD) { return 0; } }
void debug_show_console_mode(const DWORD*, const char*) {} DWORD select_mouse_input(DWORD m) { return m; } bool is_scroll_mode() { return false; } void deduce_scroll_mode(HANDLE) {} int32 ScrollConsoleRelative(HANDLE, int32, SCRMODE) { sx_in.scrolls++; return 0; }
ansi_handler get_current_ansi_handler(str_base*) { return ansi_handler::winterminal; }
namespace os { bool get_env(const char*, str_base&) { return false; } }
enum { MAXOUT = 128 };
static int g_diff, g_raw, g_sub, g_altf4, g_win;
struct Bytes { int n; int b[MAXOUT]; void add(int c) { b[n++] = c; } void add(const char* s) { while (*s) add((unsigned char)*s++); } void num(int v) { if (v >= 10) num(v / 10); add('0' + v % 10); } };
static Bytes want, got;
static void csi(const char* pre, int a, int b, char end) { want.add(pre); want.add("\x1b["); if (a) want.num(a); if (b) { want.add(';'); want.num(b); } want.add(end); }
static void mok(int mod, int key) { want.add("\x1b[27;"); want.num(mod); want.add(';'); want.num(key); want.add('~'); }
static void utf8(unsigned c) { if (c < 0x80) want.add(c); else if (c < 0x800) { want.add(0xc0 | c >> 6); want.add(0x80 | (c & 63)); } else if (c < 0x10000) { want.add(0xe0 | c >> 12); want.add(0x80 | (c >> 6 & 63)); want.add(0x80 | (c & 63)); } else { want.add(0xf0 | c >> 18); want.add(0x80 | (c >> 12 & 63)); want.add(0x80 | (c >> 6 & 63)); want.add(0x80 | (c & 63)); } }
static KEY_EVENT_RECORD& key(int vk, int ch, DWORD flags, int down = 1, int scan = 0) { INPUT_RECORD& r = sx_in.q[sx_in.n++]; r.EventType = KEY_EVENT; KEY_EVENT_RECORD& k = r.Event.KeyEvent; k.bKeyDown = down; k.wRepeatCount = 1; k.wVirtualKeyCode = (WORD)vk; k.wVirtualScanCode = (WORD)scan; k.uChar.UnicodeChar = (WCHAR)ch; k.dwControlKeyState = flags; return k; }
struct Mods { int s, c, a; DWORD flags; int mod() const { return 1 + s + 2 * a + 4 * c; } };
// Shift, any Ctrl, any Alt, and lock keys that don't matter.
static Mods mods() {
    const int w = H_MODE < 6 ? 3 : 2; Mods m = {}; m.s = sx_pick(2, "shift"); m.c = sx_pick(w, "ctrl"); m.a = sx_pick(w, "alt"); m.flags = (m.s ? SHIFT_PRESSED : 0) | (m.c == 1 ? LEFT_CTRL_PRESSED : m.c == 2 ? RIGHT_CTRL_PRESSED : 0) | (m.a == 1 ? LEFT_ALT_PRESSED : m.a == 2 ? RIGHT_ALT_PRESSED : 0);
    DWORD locks = (DWORD)sx_int(0, 0x1ff, "locks"); sx_assume(!(locks & ~(DWORD)(NUMLOCK_ON | CAPSLOCK_ON | SCROLLLOCK_ON | ENHANCED_KEY))); m.flags |= locks; m.c = m.c != 0; m.a = m.a != 0; return m; }
static void special() {
    static const struct { int vk; char kind; int n; } K[] = { { VK_UP, 'c', 'A' }, { VK_DOWN, 'c', 'B' }, { VK_RIGHT, 'c', 'C' }, { VK_LEFT, 'c', 'D' }, { VK_HOME, 'c', 'H' }, { VK_END, 'c', 'F' }, { VK_INSERT, 't', 2 }, { VK_DELETE, 't', 3 }, { VK_PRIOR, 't', 5 }, { VK_NEXT, 't', 6 },
        { VK_F1, 'p', 'P' }, { VK_F2, 'p', 'Q' }, { VK_F3, 'p', 'R' }, { VK_F4, 'p', 'S' }, { VK_F5, 'f', 15 }, { VK_F6, 'f', 17 }, { VK_F7, 'f', 18 }, { VK_F8, 'f', 19 }, { VK_F9, 'f', 20 }, { VK_F10, 'f', 21 }, { VK_F11, 'f', 23 }, { VK_F12, 'f', 24 },
        { VK_TAB, 'T', 0 }, { VK_SPACE, ' ', 0 }, { VK_BACK, 'B', 0 }, { VK_RETURN, 'R', 0 }, { VK_ESCAPE, 'E', 0 } };
    static const int light[] = { 0, 6, 13, 14, 26 }; const auto& k = K[H_MODE < 6 ? sx_pick(sizeof(K) / sizeof(*K), "key") : light[sx_pick(H_REQ ? 4 : 5, "key")]]; Mods m = mods(); int mod = m.mod(), fmod = 1 + m.s + 4 * m.c, ch = 0;
    switch (k.kind) {
    case 'c': if (mod == 1) { want.add("\x1b["); want.add(k.n); } else csi("", 1, mod, (char)k.n); break;
    case 't': csi("", k.n, mod == 1 ? 0 : mod, '~'); break;
    case 'p': if (k.vk == VK_F4 && m.a && !m.c && !m.s && g_altf4) { want.add(terminal_in::input_exit); break; } if (m.a) want.add("\x1b"); if (fmod == 1) { want.add("\x1bO"); want.add(k.n); } else csi("", 1, fmod, (char)k.n); break;
    case 'f': if (m.a) want.add("\x1b"); csi("", k.n, fmod == 1 ? 0 : fmod, '~'); break;
    case 'T': ch = m.c || m.a ? 0 : 9; if (m.a) { break; } if (m.c) mok(mod, 9); else want.add(m.s ? "\x1b[Z" : "\t"); break;
    case ' ': ch = ' '; if (m.a && !m.c) { break; } if (mod == 1) want.add(' '); else if (m.a && m.c && g_sub && (m.flags & LEFT_ALT_PRESSED)) { if (m.s || m.c) mok(1 + m.s + 4 * m.c, 32); } else mok(mod, 32); break;
    case 'B': ch = m.c ? 0x7f : 8; if (m.s) mok(mod, 8); else { if (m.a) want.add(0x1b); want.add(m.c ? 0x7f : 8); } break;
    case 'R': ch = m.c ? 10 : 13; if (mod == 1) want.add(13); else mok(mod, 13); break;
    case 'E': ch = 0x1b; if (!g_raw) want.add("\x1b[27;27~"); else if (m.a || m.c || m.s) sx_assume(0); else want.add(0x1b); break;
    }
    if (k.kind == 'B' && g_sub && m.a && m.c) sx_assume(0);   // what a layout's AltGr makes of these keys isn't specified
    if ((k.kind == 'R') && g_sub && m.a && m.c) sx_assume(0);
    key(k.vk, ch, m.flags); }
static void letter() {
    static const char light[] = "AIO"; int vk = H_MODE < 6 ? 'A' + sx_pick(26, "letter") : light[sx_pick(3, "letter")]; Mods m = mods(); int mod = m.mod(), code = vk - 'A' + 1, own = vk == 'H' || vk == 'I', ch; int caps = (m.flags & CAPSLOCK_ON) != 0;
    ch = m.c ? (m.a ? 0 : code) : ((m.s != 0) != caps) ? vk : vk | 32; int special_ctrl = m.c && ((own && g_diff) || (vk == 'M' && (g_diff || g_win)));
    if (m.c && m.s && vk == 'I' && !g_diff && !m.a) want.add("\x1b[Z");
    else if (special_ctrl || (m.c && m.s && (!(m.a == 0 && (own || vk == 'M'))))) mok(mod, vk);
    else if (m.c) { if (m.a) want.add(0x1b); want.add(code); }
    else if (m.a && ch == 'O' && m.s && !g_raw) want.add("\x1b[27;4;79~");
    else { if (m.a) want.add(0x1b); want.add(ch); }
    if (m.a && !m.c && ch == 'O' && !m.s && !g_raw) { }
    key(vk, ch, m.flags); }
static void symbol() {
    static const struct { int vk, plain, shift, ctrl, ctrlshift, scan; } K[] = { { '2', '2', '@', 0, 0, 3 }, { '3', '3', '#', 0, 0, 4 }, { '6', '6', '^', 0, 0x1e, 7 }, { VK_OEM_MINUS, '-', '_', 0, 0x1f, 0xc }, { VK_OEM_4, '[', '{', 0x1b, 0, 0x1a }, { VK_OEM_6, ']', '}', 0x1d, 0, 0x1b }, { VK_OEM_5, '\\', '|', 0x1c, 0, 0x2b }, { VK_OEM_PERIOD, '.', '>', 0, 0, 0x34 } };
    const auto& k = K[sx_pick(sizeof(K) / sizeof(*K), "key")]; Mods m = mods(); int mod = m.mod(), ch = m.c ? (m.a ? 0 : m.s ? k.ctrlshift : k.ctrl) : m.s ? k.shift : k.plain, code = -1;
    if (!m.c) { if (m.a && ch == '[') { if (g_diff) return; if (!g_raw) { want.add("\x1b[27;3;91~"); key(k.vk, ch, m.flags, 1, k.scan); return; } } if (m.a) want.add(0x1b); want.add(ch); key(k.vk, ch, m.flags, 1, k.scan); return; }
    if (k.vk == '2' && (m.s || !g_diff)) code = 0; else if (k.vk == '6' && (m.s || !g_diff)) code = 0x1e; else if (k.vk == VK_OEM_MINUS && m.s) code = 0x1f; else if (!m.s && (k.ctrl == 0x1c || k.ctrl == 0x1d)) code = k.ctrl; else if (!m.s && k.ctrl == 0x1b && !g_diff) code = 0x1b;
    sx_assume(!(g_diff && g_raw && k.ctrl == 0x1b && !m.s));   // the two settings ask for different things
    if (code == 0x1b) { if (m.a) { if (g_raw) want.add("\x1b\x1b"); else mok(mod, k.vk); } else want.add(g_raw ? "\x1b" : "\x1b[27;27~"); }
    else if (code >= 0) { if (m.a) want.add(0x1b); want.add(code); } else mok(mod, k.vk);
    key(k.vk, ch, m.flags, 1, k.scan); }
// A character as any keyboard layout, input method or paste sends it.
static void text() {
    int up = sx_pick(2, "numpad"), c = (int)sx_int(0x20, 0x2ffff, "char"); sx_assume(c != 0x7f && !(c >= 0xd800 && c < 0xe000) && c != '[' && c != 'O' && !(H_REQ && c >= 0x80 && c < 0xa0)); DWORD f = sx_pick(2, "shift") ? SHIFT_PRESSED : 0; int gr = sx_pick(3, "altgr"); if (gr == 1) f |= RIGHT_ALT_PRESSED | LEFT_CTRL_PRESSED; if (gr == 2) f |= RIGHT_ALT_PRESSED | LEFT_ALT_PRESSED | LEFT_CTRL_PRESSED;
    if (c >= 0x10000) { key(up ? VK_MENU : VK_PACKET, 0xd800 | (c - 0x10000) >> 10, f, !up); key(VK_PACKET, 0, f, 0); key(up ? VK_MENU : VK_PACKET, 0xdc00 | (c & 0x3ff), f, !up); sx_cover("pair"); } else key(up ? VK_MENU : VK_PACKET, c, f, !up); utf8((unsigned)c); }
static void nothing() {
    int kind = sx_pick(4, "nothing"); DWORD f = (DWORD)sx_int(0, 0x1ff, "flags"); int vk;
    if (kind == 0) { vk = (int)sx_int(0, 255, "vk"); sx_assume(vk != VK_MENU); key(vk, (int)sx_int(0, 0xffff, "char"), f, 0); }   // released
    else if (kind == 1) { static const int lone[] = { VK_CONTROL, VK_SHIFT, VK_LWIN, VK_RWIN, VK_MENU }; key(lone[sx_pick(5, "vk")], 0, f); }
    else if (kind == 2) { sx_in.q[sx_in.n++].EventType = FOCUS_EVENT; } else { INPUT_RECORD& r = sx_in.q[sx_in.n++]; r.EventType = WINDOW_BUFFER_SIZE_EVENT; } }
static int g_bound, g_mouse, g_asked; static str<16>* g_tr;
struct Tester : key_tester {
    bool is_bound(const char* s, int32 n) override { g_asked++; sx_check(s[n] == 0, "chord ends"); return g_bound != 0; }
    bool accepts_mouse_input(mouse_input_type) override { return g_mouse != 0; }
    bool translate(const char* s, int32 n, str_base& out) override { if (g_bound != 2) return false; out = "zy"; return true; } };
// The button state of the mouse, and what its changes send.
static DWORD g_prev;
static void mouse() {
    INPUT_RECORD& r = sx_in.q[sx_in.n++]; r.EventType = MOUSE_EVENT; MOUSE_EVENT_RECORD& e = r.Event.MouseEvent; int x = H_PEEK || sx_in.n > 1 ? 7 : 1000 * (int)sx_conc(sx_int(0, 12, "x")), y = 9 * (int)sx_pick(H_PEEK || sx_in.n > 1 ? 1 : 2, "y"); e.dwMousePosition.X = (SHORT)x; e.dwMousePosition.Y = (SHORT)y; e.dwControlKeyState = (DWORD)sx_int(0, 0x1ff, "state");
    int b = sx_pick(4, "buttons"), ev = sx_pick(H_REQ ? 2 : 5, "event"), d = 0; e.dwButtonState = (b & 1 ? FROM_LEFT_1ST_BUTTON_PRESSED : 0) | (b & 2 ? RIGHTMOST_BUTTON_PRESSED : 0); static const DWORD evs[] = { 0, MOUSE_MOVED, DOUBLE_CLICK, MOUSE_WHEELED, MOUSE_HWHEELED }; e.dwEventFlags = evs[ev];
    DWORD other = (DWORD)sx_int(0, 0x1f, "middle"); sx_assume(!(other & 3)); e.dwButtonState |= other;
    if (ev >= 3) { d = (int)sx_pick(4, "wheel"); d = d == 0 ? 120 : d == 1 ? -120 : d == 2 ? 360 : -1200; e.dwButtonState |= (DWORD)d << 16; }
    DWORD now = e.dwButtonState, old = g_prev; g_prev = now; int left = (now & 1) && !(old & 1), right = !left && (now & 2) && !(old & 2); char c = 0;
    if (!g_mouse) return;
    if (left) c = ev == 2 ? 'D' : 'L'; else if (right) c = 'R'; else if (ev == 3) { want.add("\x1b[$"); want.num((d < 0 ? -d : d) / 120 * 3); want.add(d > 0 ? 'A' : 'B'); sx_cover("wheel"); return; } else if (ev == 4) { want.add("\x1b[$"); want.num((d < 0 ? -d : d) / 32); want.add(d > 0 ? '>' : '<'); return; } else if (ev == 1 && (now & 1)) c = 'M';
    if (c) { want.add("\x1b[$"); want.num(x); want.add(';'); want.num(y); want.add(c); sx_cover("click"); } }
static void set(const char* name, int v) { setting* s = settings::find(name); if (s) s->set(v ? "1" : "0"); }
extern "C" void harness_main() {
    g_diff = H_SET & 1 ? sx_pick(2, "differentiate") : 0; g_raw = H_SET & 2 ? sx_pick(2, "raw") : 0; g_sub = H_SET & 4 ? sx_pick(2, "substitute") : 0; g_altf4 = H_SET & 8 ? sx_pick(2, "altf4") : !H_REQ; g_win = H_SET & 16 ? sx_pick(2, "windows") : 0;
    set("terminal.differentiate_keys", g_diff); set("terminal.raw_esc", g_raw); set("terminal.use_altgr_substitute", g_sub); set("cmd.altf4_exits", g_altf4); if (g_win) g_default_bindings.set("windows");
    sx_in.mode = 0; win_terminal_in in(false); in.begin(); Tester tester; int use = H_TEST ? sx_pick(2, "tester") : H_MODE == 5; if (use) in.set_key_tester(&tester); g_mouse = use && (H_MODE == 5 ? sx_pick(2, "mouse") : 0); g_bound = use && H_TEST ? sx_pick(3, "bound") : 1;
    str<> answer; static const char* const answers[] = { "\x1b[?2027;1$y", "\x1b[1;5R", "\x1b]11;rgb\x1b\\", "\x1b]11;rgb\a" }, * const requests[] = { "\x1b[?2027$p", "\x1b[6n", "\x1b]11;?\x1b\\", "\x1b]11;?\x1b\\" }, * const prefixes[] = { "\x1b[?2027;", "\x1b[", "\x1b]11;", "\x1b]11;" }, * const finals[] = { "y", "R", 0, 0 }; int asked = 0, ok = 0, which = 0;
    for (int k = 0; k < H_K; k++) { int before = want.n, kind = H_MODE < 6 ? H_MODE : sx_pick(H_KINDS, "kind"); if (kind == 0) special(); else if (kind == 1) letter(); else if (kind == 2) text(); else if (kind == 3) nothing(); else if (kind == 4) symbol(); else mouse();
        if (use && kind != 5 && want.n > before && H_TEST) { if (g_bound == 0) want.n = before; if (g_bound == 2) { want.n = before; want.add("zy"); } sx_cover("tested"); } }
    if (H_REQ) { which = sx_pick(4, "request"); sx_in.answer = sx_pick(2, "answered") ? answers[which] : 0; sx_in.answer_at = sx_pick(sx_in.n + 1, "place"); sx_assume(sx_in.answer_at <= sx_in.n); for (int i = sx_in.answer_at; sx_in.answer_at > 0 && i < sx_in.n; i++) sx_assume(!(sx_in.q[i].EventType == KEY_EVENT && IS_LOW_SURROGATE(sx_in.q[i].Event.KeyEvent.uChar.UnicodeChar) && i == sx_in.answer_at)); }
    // Read all of it, peeking between where chosen.
    int calm = 0;
    for (int i = 0; i < 2 * MAXOUT; i++) {
        if (H_REQ && !asked && (i == 0 || sx_pick(2, "ask"))) { asked = 1; ok = in.send_terminal_request(requests[which], prefixes[which], finals[which], 10, 10, answer); sx_check(ok == (sx_in.answer != 0), "whether there was an answer"); if (ok) sx_check(hx_eq(answer.c_str(), answers[which]), "the answer"); sx_check(sx_in.written == 1, "asked once"); sx_cover(ok ? "answered" : "not answered"); }
        if (H_PEEK) { int p = i < H_PEEK ? sx_pick(3, "peek") : 0; if (p == 1) { int any = in.available(0); if (any) { } sx_cover("looked"); } else if (p == 2) { in.available(0); in.peek(); in.available(0); } }
        in.select(nullptr, 0); int pk = in.peek(), c = in.read();
        if (c == (int)terminal_in::input_none) { if (++calm > 2 && sx_in.at >= sx_in.n) break; continue; }
        calm = 0; sx_check(pk == c, "peek says what is read"); if (got.n == MAXOUT) { sx_check(0, "input ends"); return; } got.add(c); }
    sx_check(sx_in.at == sx_in.n, "all of the input was read"); sx_check(got.n == want.n, "number of bytes"); if (got.n == want.n) { int same = 1; for (int i = 0; i < got.n; i++) same &= got.b[i] == want.b[i]; sx_check(same, "the bytes read"); }
    for (int i = 0; i < got.n; i++) { sx_obs((sx_u64)got.b[i]); } in.end(); sx_cover("end");
}
