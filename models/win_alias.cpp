// Console aliases (Doskey macros) in memory, for the engine and for native replays (Wine has none).
#include <windows.h>
#include "sx.h"
extern "C" {
static struct { wchar_t n[16], t[6000]; int used; } g_al[4];
static int weq_(const wchar_t* a, const wchar_t* b) { for (; *a && *a == *b; a++, b++) {} return *a == *b; }
static BOOL WINAPI sx_AddConsoleAliasW(LPWSTR n, LPWSTR t, LPWSTR) {
    int i; for (i = 0; i < 4; i++) if (g_al[i].used && weq_(g_al[i].n, n)) break; if (!t) { if (i == 4) return 0; g_al[i].used = 0; return 1; }
    if (i == 4) for (i = 0; i < 4; i++) if (!g_al[i].used) break; if (i == 4) sx_cut("too many aliases");
    g_al[i].used = 1; int k = 0; do { if (k > 15) sx_cut("alias name too long"); g_al[i].n[k] = n[k]; } while (n[k++]); k = 0; do { if (k > 5998) sx_cut("alias text too long"); g_al[i].t[k] = t[k]; } while (t[k++]); return 1; }
static DWORD WINAPI sx_GetConsoleAliasW(LPWSTR n, LPWSTR b, DWORD len, LPWSTR) {
    for (int i = 0; i < 4; i++) if (g_al[i].used && weq_(g_al[i].n, n)) { int k = 0; while (g_al[i].t[k]) k++; if ((k + 1) * 2u > len) { SetLastError(ERROR_INSUFFICIENT_BUFFER); return 0; } for (int j = 0; j <= k; j++) b[j] = g_al[i].t[j]; return (k + 1) * 2; }
    SetLastError(ERROR_GEN_FAILURE); return 0; }
#ifdef SX_ENGINE
BOOL WINAPI AddConsoleAliasW(LPWSTR n, LPWSTR t, LPWSTR e) { return sx_AddConsoleAliasW(n, t, e); }
DWORD WINAPI GetConsoleAliasW(LPWSTR n, LPWSTR b, DWORD l, LPWSTR e) { return sx_GetConsoleAliasW(n, b, l, e); }
#ifdef SX_LASTERROR
static DWORD g_le; DWORD WINAPI GetLastError() { return g_le; } void WINAPI SetLastError(DWORD e) { g_le = e; }
#endif
#else
void* __imp_AddConsoleAliasW = (void*)sx_AddConsoleAliasW; void* __imp_GetConsoleAliasW = (void*)sx_GetConsoleAliasW;
#endif
}
