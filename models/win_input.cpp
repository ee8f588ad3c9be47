// A console's input: a queue of records. Nobody types while the program waits, so waiting with an empty queue times out.
#include "win_input.h"
#include "sx.h"
extern "C" {
SxIn sx_in;
static BOOL WINAPI sx_GetConsoleMode(HANDLE, LPDWORD p) { *p = sx_in.mode; return 1; }
static BOOL WINAPI sx_SetConsoleMode(HANDLE, DWORD) { return 1; }
static BOOL WINAPI sx_GetConsoleScreenBufferInfo(HANDLE, PCONSOLE_SCREEN_BUFFER_INFO p) { p->dwSize.X = 80; p->dwSize.Y = 25; p->dwCursorPosition.X = 0; p->dwCursorPosition.Y = 0; p->wAttributes = 7; p->srWindow.Left = 0; p->srWindow.Top = 0; p->srWindow.Right = 79; p->srWindow.Bottom = 24; return 1; }
static BOOL WINAPI sx_SetConsoleCursorPosition(HANDLE, COORD) { return 1; }
static BOOL WINAPI sx_ReadConsoleInputW(HANDLE, PINPUT_RECORD r, DWORD, LPDWORD got) { if (sx_in.at >= sx_in.n) { sx_check(0, "read from an empty queue"); *got = 0; return 0; } *r = sx_in.q[sx_in.at++]; *got = 1; return 1; }
static DWORD WINAPI sx_WaitForMultipleObjects(DWORD, const HANDLE*, BOOL, DWORD ms) { if (sx_in.at < sx_in.n) return WAIT_OBJECT_0; if (ms == INFINITE) { sx_check(0, "waits for ever"); return WAIT_FAILED; } sx_in.ticks += ms; return WAIT_TIMEOUT; }
static DWORD WINAPI sx_GetTickCount(void) { return sx_in.ticks; }
static BOOL WINAPI sx_WriteConsoleW(HANDLE, const VOID* s, DWORD n, LPDWORD w, LPVOID) {
    // The answer is put into the queue behind what is there at this place.
    sx_in.written++; if (sx_in.answer) { int k = 0; while (sx_in.answer[k]) k++; int at = sx_in.at + sx_in.answer_at; if (at > sx_in.n) at = sx_in.n; for (int i = sx_in.n - 1; i >= at; i--) sx_in.q[i + k] = sx_in.q[i]; for (int i = 0; i < k; i++) { INPUT_RECORD& r = sx_in.q[at + i]; r.EventType = KEY_EVENT; r.Event.KeyEvent.bKeyDown = 1; r.Event.KeyEvent.wRepeatCount = 1; r.Event.KeyEvent.wVirtualKeyCode = 0; r.Event.KeyEvent.wVirtualScanCode = 0; r.Event.KeyEvent.uChar.UnicodeChar = (unsigned char)sx_in.answer[i]; r.Event.KeyEvent.dwControlKeyState = 0; } sx_in.n += k; }
    *w = n; return 1; }
static HANDLE WINAPI sx_CreateEventA(LPSECURITY_ATTRIBUTES, BOOL, BOOL, LPCSTR) { return 0; }
static HANDLE WINAPI sx_CreateEventW(LPSECURITY_ATTRIBUTES, BOOL, BOOL, LPCWSTR) { return 0; }
static BOOL WINAPI sx_ResetEvent(HANDLE) { return 1; }
static BOOL WINAPI sx_SetEvent(HANDLE) { return 1; }
static SHORT WINAPI sx_GetKeyState(int) { return 0; }
static UINT WINAPI sx_MapVirtualKeyW(UINT, UINT) { return 0; }
static int WINAPI sx_GetKeyNameTextW(LONG l, LPWSTR s, int) { int sc = l >> 16 & 0x1ff; wchar_t c = sc == 0x1a ? '[' : sc == 0x1b ? ']' : sc == 0x2b ? '\\' : 0; if (!c) return 0; s[0] = c; s[1] = 0; return 1; }
static HWND WINAPI sx_GetConsoleWindow(void) { return 0; }
static BOOL WINAPI sx_IsWindowVisible(HWND) { return 1; }
static LONG WINAPI sx_GetWindowLongW(HWND, int) { return (LONG)WS_VISIBLE; }
static BOOL WINAPI sx_GetCursorPos(LPPOINT p) { p->x = p->y = 0; return 1; }
static LRESULT WINAPI sx_SendMessageA(HWND, UINT, WPARAM, LPARAM) { sx_in.menus++; return 0; }
static LRESULT WINAPI sx_SendMessageW(HWND, UINT, WPARAM, LPARAM) { sx_in.menus++; return 0; }
static BOOL WINAPI sx_SystemParametersInfoA(UINT, UINT, PVOID p, UINT) { *(UINT*)p = 3; return 1; }
static BOOL WINAPI sx_SystemParametersInfoW(UINT, UINT, PVOID p, UINT) { *(UINT*)p = 3; return 1; }
#define SX_ALL(X) X(GetConsoleMode, BOOL, (HANDLE a, LPDWORD b), (a, b)) X(SetConsoleMode, BOOL, (HANDLE a, DWORD b), (a, b)) X(GetConsoleScreenBufferInfo, BOOL, (HANDLE a, PCONSOLE_SCREEN_BUFFER_INFO b), (a, b)) X(SetConsoleCursorPosition, BOOL, (HANDLE a, COORD b), (a, b)) \
 X(ReadConsoleInputW, BOOL, (HANDLE a, PINPUT_RECORD b, DWORD c, LPDWORD d), (a, b, c, d)) X(WaitForMultipleObjects, DWORD, (DWORD a, const HANDLE* b, BOOL c, DWORD d), (a, b, c, d)) X(WriteConsoleW, BOOL, (HANDLE a, const VOID* b, DWORD c, LPDWORD d, LPVOID e), (a, b, c, d, e)) \
 X(GetKeyState, SHORT, (int a), (a)) X(MapVirtualKeyW, UINT, (UINT a, UINT b), (a, b)) X(GetKeyNameTextW, int, (LONG a, LPWSTR b, int c), (a, b, c)) X(GetConsoleWindow, HWND, (void), ()) X(IsWindowVisible, BOOL, (HWND a), (a)) X(GetWindowLongW, LONG, (HWND a, int b), (a, b)) \
 X(GetCursorPos, BOOL, (LPPOINT a), (a)) X(SendMessageA, LRESULT, (HWND a, UINT b, WPARAM c, LPARAM d), (a, b, c, d)) X(SendMessageW, LRESULT, (HWND a, UINT b, WPARAM c, LPARAM d), (a, b, c, d)) X(SystemParametersInfoA, BOOL, (UINT a, UINT b, PVOID c, UINT d), (a, b, c, d)) X(SystemParametersInfoW, BOOL, (UINT a, UINT b, PVOID c, UINT d), (a, b, c, d)) \
 X(CreateEventA, HANDLE, (LPSECURITY_ATTRIBUTES a, BOOL b, BOOL c, LPCSTR d), (a, b, c, d)) X(CreateEventW, HANDLE, (LPSECURITY_ATTRIBUTES a, BOOL b, BOOL c, LPCWSTR d), (a, b, c, d)) X(ResetEvent, BOOL, (HANDLE a), (a)) X(SetEvent, BOOL, (HANDLE a), (a)) X(GetTickCount, DWORD, (void), ())
#ifdef SX_ENGINE
#define X(n, r, p, a) r WINAPI n p { return sx_##n a; }
#else
#define X(n, r, p, a) void* __imp_##n = (void*)sx_##n;
#endif
SX_ALL(X)
}
