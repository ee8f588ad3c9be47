// A console without its own processing of control sequences: a buffer of cells, a window on it, a cursor and the current attributes.
#include "win_console.h"
#include "sx.h"
extern "C" {
SxCon sx_con;
static int in_(COORD c) { return c.X >= 0 && c.X < sx_con.w && c.Y >= 0 && c.Y < sx_con.h; }
static void scroll_(void) { for (int y = 0; y + 1 < sx_con.h; y++) for (int x = 0; x < sx_con.w; x++) { sx_con.ch[y][x] = sx_con.ch[y + 1][x]; sx_con.at[y][x] = sx_con.at[y + 1][x]; } for (int x = 0; x < sx_con.w; x++) { sx_con.ch[sx_con.h - 1][x] = ' '; sx_con.at[sx_con.h - 1][x] = sx_con.attr; } }
static void view_(void) { int d = sx_con.cy < sx_con.top ? sx_con.cy - sx_con.top : sx_con.cy > sx_con.bottom ? sx_con.cy - sx_con.bottom : 0; sx_con.top += d; sx_con.bottom += d; }
static void lf_(void) { sx_con.cx = 0; if (++sx_con.cy == sx_con.h) { scroll_(); sx_con.cy--; } view_(); }
static BOOL WINAPI sx_GetConsoleMode(HANDLE h, LPDWORD p) { if (!sx_con.w) return 0; *p = ENABLE_PROCESSED_OUTPUT | ENABLE_WRAP_AT_EOL_OUTPUT; return 1; }
static BOOL WINAPI sx_SetConsoleMode(HANDLE, DWORD) { return 1; }
static BOOL WINAPI sx_GetConsoleScreenBufferInfo(HANDLE, PCONSOLE_SCREEN_BUFFER_INFO p) { if (!sx_con.w) return 0; p->dwSize.X = (SHORT)sx_con.w; p->dwSize.Y = (SHORT)sx_con.h; p->dwCursorPosition.X = (SHORT)sx_con.cx; p->dwCursorPosition.Y = (SHORT)sx_con.cy; p->wAttributes = sx_con.attr; p->srWindow.Left = 0; p->srWindow.Top = (SHORT)sx_con.top; p->srWindow.Right = (SHORT)(sx_con.w - 1); p->srWindow.Bottom = (SHORT)sx_con.bottom; p->dwMaximumWindowSize = p->dwSize; return 1; }
static BOOL WINAPI sx_GetConsoleScreenBufferInfoEx(HANDLE, PCONSOLE_SCREEN_BUFFER_INFOEX p) { for (int i = 0; i < 16; i++) p->ColorTable[i] = i; return 1; }
static BOOL WINAPI sx_SetConsoleTextAttribute(HANDLE, WORD a) { sx_con.attr = a; return 1; }
static BOOL WINAPI sx_SetConsoleCursorPosition(HANDLE, COORD c) { if (!in_(c)) return 0; sx_con.cx = (int)sx_conc((sx_u64)c.X); sx_con.cy = (int)sx_conc((sx_u64)c.Y); view_(); return 1; }
static BOOL WINAPI sx_WriteConsoleW(HANDLE, const VOID* s, DWORD n, LPDWORD w, LPVOID) { const wchar_t* p = (const wchar_t*)s; for (DWORD i = 0; i < n; i++) { wchar_t c = p[i];
    if (c == '\n') lf_(); else if (c == '\t') { int to = (sx_con.cx + 8) & ~7; if (to >= sx_con.w) lf_(); else while (sx_con.cx < to) { sx_con.ch[sx_con.cy][sx_con.cx] = ' '; sx_con.at[sx_con.cy][sx_con.cx++] = sx_con.attr; } }
    else { sx_con.ch[sx_con.cy][sx_con.cx] = c; sx_con.at[sx_con.cy][sx_con.cx] = sx_con.attr; if (++sx_con.cx == sx_con.w) lf_(); } } *w = n; return 1; }
static BOOL WINAPI sx_FillConsoleOutputCharacterW(HANDLE, WCHAR c, DWORD n, COORD at, LPDWORD w) { *w = 0; if (!in_(at)) return 0; n = (DWORD)sx_conc(n); at.X = (SHORT)sx_conc((sx_u64)at.X); at.Y = (SHORT)sx_conc((sx_u64)at.Y); int i = at.Y * sx_con.w + at.X; for (; *w < n && i < sx_con.w * sx_con.h; i++, ++*w) sx_con.ch[i / sx_con.w][i % sx_con.w] = c; return 1; }
static BOOL WINAPI sx_FillConsoleOutputAttribute(HANDLE, WORD a, DWORD n, COORD at, LPDWORD w) { *w = 0; if (!in_(at)) return 0; n = (DWORD)sx_conc(n); at.X = (SHORT)sx_conc((sx_u64)at.X); at.Y = (SHORT)sx_conc((sx_u64)at.Y); int i = at.Y * sx_con.w + at.X; for (; *w < n && i < sx_con.w * sx_con.h; i++, ++*w) sx_con.at[i / sx_con.w][i % sx_con.w] = a; return 1; }
static BOOL WINAPI sx_ReadConsoleOutputCharacterW(HANDLE, LPWSTR d, DWORD n, COORD at, LPDWORD got) { *got = 0; if (!in_(at)) return 0; int i = at.Y * sx_con.w + at.X; for (; *got < n && i < sx_con.w * sx_con.h; i++, ++*got) d[*got] = sx_con.ch[i / sx_con.w][i % sx_con.w]; return 1; }
static BOOL WINAPI sx_ReadConsoleOutputAttribute(HANDLE, LPWORD d, DWORD n, COORD at, LPDWORD got) { *got = 0; if (!in_(at)) return 0; int i = at.Y * sx_con.w + at.X; for (; *got < n && i < sx_con.w * sx_con.h; i++, ++*got) d[*got] = sx_con.at[i / sx_con.w][i % sx_con.w]; return 1; }
static BOOL WINAPI sx_ScrollConsoleScreenBufferW(HANDLE, const SMALL_RECT* r, const SMALL_RECT* clip, COORD to, const CHAR_INFO* f) {
    int l = r->Left < 0 ? 0 : r->Left, t = r->Top < 0 ? 0 : r->Top, rr = r->Right >= sx_con.w ? sx_con.w - 1 : r->Right, b = r->Bottom >= sx_con.h ? sx_con.h - 1 : r->Bottom; if (l > rr || t > b) return 1; l = (int)sx_conc((sx_u64)l);
    int dx = (int)sx_conc((sx_u64)(to.X + (l - r->Left))), dy = to.Y + (t - r->Top); static SxCon o; o = sx_con;
    for (int y = t; y <= b; y++) for (int x = l; x <= rr; x++) { sx_con.ch[y][x] = f->Char.UnicodeChar; sx_con.at[y][x] = f->Attributes; }
    for (int y = t; y <= b; y++) for (int x = l; x <= rr; x++) { int nx = dx + x - l, ny = dy + y - t; if (nx >= 0 && nx < sx_con.w && ny >= 0 && ny < sx_con.h) { sx_con.ch[ny][nx] = o.ch[y][x]; sx_con.at[ny][nx] = o.at[y][x]; } }
    return 1; }
static BOOL WINAPI sx_ScrollConsoleScreenBufferA(HANDLE h, const SMALL_RECT* r, const SMALL_RECT* clip, COORD to, const CHAR_INFO* f) { CHAR_INFO g; g.Char.UnicodeChar = (unsigned char)f->Char.AsciiChar; g.Attributes = f->Attributes; return sx_ScrollConsoleScreenBufferW(h, r, clip, to, &g); }
static BOOL WINAPI sx_SetConsoleWindowInfo(HANDLE, BOOL, const SMALL_RECT* r) { if (r->Top < 0 || r->Bottom >= sx_con.h || r->Top > r->Bottom) return 0; sx_con.top = r->Top; sx_con.bottom = r->Bottom; return 1; }
static FARPROC WINAPI sx_GetProcAddress(HMODULE, LPCSTR n) { return (FARPROC)sx_GetConsoleScreenBufferInfoEx; }
static HMODULE WINAPI sx_GetModuleHandleA(LPCSTR n) { return n && n[0] == 'k' ? (HMODULE)1 : 0; }
static BOOL WINAPI sx_GetVersionExA(LPOSVERSIONINFOA p) { return 0; }
static BOOL WINAPI sx_MessageBeep(UINT) { sx_con.beeps++; return 1; }
static BOOL WINAPI sx_SetConsoleTitleW(LPCWSTR s) { int i = 0; for (; s[i] && i < 31; i++) sx_con.title[i] = s[i]; sx_con.title[i] = 0; sx_con.titles++; return 1; }
static BOOL WINAPI sx_WriteFile(HANDLE, LPCVOID, DWORD n, LPDWORD w, LPOVERLAPPED) { *w = n; return 1; }
static void WINAPI sx_Sleep(DWORD) {}
#define SX_ALL(X) X(GetConsoleMode, BOOL, (HANDLE a, LPDWORD b), (a, b)) X(SetConsoleMode, BOOL, (HANDLE a, DWORD b), (a, b)) X(GetConsoleScreenBufferInfo, BOOL, (HANDLE a, PCONSOLE_SCREEN_BUFFER_INFO b), (a, b)) \
 X(SetConsoleTextAttribute, BOOL, (HANDLE a, WORD b), (a, b)) X(SetConsoleCursorPosition, BOOL, (HANDLE a, COORD b), (a, b)) X(WriteConsoleW, BOOL, (HANDLE a, const VOID* b, DWORD c, LPDWORD d, LPVOID e), (a, b, c, d, e)) \
 X(FillConsoleOutputCharacterW, BOOL, (HANDLE a, WCHAR b, DWORD c, COORD d, LPDWORD e), (a, b, c, d, e)) X(FillConsoleOutputAttribute, BOOL, (HANDLE a, WORD b, DWORD c, COORD d, LPDWORD e), (a, b, c, d, e)) \
 X(ReadConsoleOutputCharacterW, BOOL, (HANDLE a, LPWSTR b, DWORD c, COORD d, LPDWORD e), (a, b, c, d, e)) X(ReadConsoleOutputAttribute, BOOL, (HANDLE a, LPWORD b, DWORD c, COORD d, LPDWORD e), (a, b, c, d, e)) \
 X(ScrollConsoleScreenBufferW, BOOL, (HANDLE a, const SMALL_RECT* b, const SMALL_RECT* c, COORD d, const CHAR_INFO* e), (a, b, c, d, e)) X(ScrollConsoleScreenBufferA, BOOL, (HANDLE a, const SMALL_RECT* b, const SMALL_RECT* c, COORD d, const CHAR_INFO* e), (a, b, c, d, e)) \
 X(SetConsoleWindowInfo, BOOL, (HANDLE a, BOOL b, const SMALL_RECT* c), (a, b, c)) X(MessageBeep, BOOL, (UINT a), (a)) X(SetConsoleTitleW, BOOL, (LPCWSTR a), (a))
#define SX_ENG(X) X(GetProcAddress, FARPROC, (HMODULE a, LPCSTR b), (a, b)) X(GetModuleHandleA, HMODULE, (LPCSTR a), (a)) X(GetVersionExA, BOOL, (LPOSVERSIONINFOA a), (a)) X(WriteFile, BOOL, (HANDLE a, LPCVOID b, DWORD c, LPDWORD d, LPOVERLAPPED e), (a, b, c, d, e))
#ifdef SX_ENGINE
#define X(n, r, p, a) r WINAPI n p { return sx_##n a; }
SX_ALL(X) SX_ENG(X)
DWORD WINAPI GetCurrentProcessId(void) { return 77; }
void WINAPI Sleep(DWORD) {}
#else
#define X(n, r, p, a) void* __imp_##n = (void*)sx_##n;
SX_ALL(X)
// only the screen buffer's lookups; the C runtime uses these functions too, so they aren't replaced as a whole
HMODULE sxn_GetModuleHandleA(LPCSTR n) { return sx_GetModuleHandleA(n); } FARPROC sxn_GetProcAddress(HMODULE m, LPCSTR n) { return sx_GetProcAddress(m, n); } BOOL sxn_GetVersionExA(LPOSVERSIONINFOA p) { return 0; }
#endif
}
