// Environment variables, the current directory, and which directories exist, for the engine and for native replays.
#include <windows.h>
#include "sx.h"
extern "C" {
int (*sx_isdir)(const wchar_t*) = 0;        // set by the harness
static struct { wchar_t n[24], v[24]; int used; } g_env[12];
static int up_(wchar_t c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int weqi_(const wchar_t* a, const wchar_t* b) { for (; *a && up_(*a) == up_(*b); a++, b++) {} return *a == *b; }
static BOOL WINAPI sx_SetEnv(LPCWSTR n, LPCWSTR v) { int i; for (i = 0; i < 12; i++) if (g_env[i].used && weqi_(g_env[i].n, n)) break; if (!v) { if (i == 12) { SetLastError(ERROR_ENVVAR_NOT_FOUND); return 0; } g_env[i].used = 0; return 1; }
    if (i == 12) for (i = 0; i < 12; i++) if (!g_env[i].used) break; if (i == 12) sx_cut("too many variables"); g_env[i].used = 1; int k = 0; do { if (k > 23) sx_cut("name too long"); g_env[i].n[k] = n[k]; } while (n[k++]); k = 0; do { if (k > 23) sx_cut("value too long"); g_env[i].v[k] = v[k]; } while (v[k++]); return 1; }
static DWORD WINAPI sx_GetEnv(LPCWSTR n, LPWSTR b, DWORD len) { for (int i = 0; i < 12; i++) if (g_env[i].used && weqi_(g_env[i].n, n)) { DWORD k = 0; while (g_env[i].v[k]) k++; if (k + 1 > len) return k + 1; for (DWORD j = 0; j <= k; j++) b[j] = g_env[i].v[j]; SetLastError(0); return k; } SetLastError(ERROR_ENVVAR_NOT_FOUND); return 0; }
static const wchar_t CWD[] = L"C:\\cur";
static DWORD WINAPI sx_GetCwd(DWORD len, LPWSTR b) { DWORD k = sizeof(CWD) / 2 - 1; if (k + 1 > len) return k + 1; for (DWORD j = 0; j <= k; j++) b[j] = CWD[j]; return k; }
static DWORD WINAPI sx_GetAttr(LPCWSTR n) { if (sx_isdir && sx_isdir(n)) return FILE_ATTRIBUTE_DIRECTORY; SetLastError(ERROR_FILE_NOT_FOUND); return INVALID_FILE_ATTRIBUTES; }
static HANDLE WINAPI sx_FindFirst(LPCWSTR n, LPWIN32_FIND_DATAW d) { if (sx_isdir && sx_isdir(n)) { memset(d, 0, sizeof *d); d->dwFileAttributes = FILE_ATTRIBUTE_DIRECTORY; return (HANDLE)1; } SetLastError(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
static BOOL WINAPI sx_FindClose(HANDLE) { return 1; }
static UINT WINAPI sx_DriveType(LPCWSTR n) { return n && up_(n[0]) == 'N' ? DRIVE_REMOTE : DRIVE_FIXED; }
static DWORD WINAPI sx_FullPath(LPCWSTR n, DWORD len, LPWSTR b, LPWSTR*) { // rooted paths are kept, others are put behind the current directory (their dots don't matter here)
    wchar_t t[128]; DWORD k = 0; int root = (n[0] == '\\' || n[0] == '/') && (n[1] == '\\' || n[1] == '/'), drive = n[0] && n[1] == ':'; if (!root && !drive) { if (n[0] == '\\' || n[0] == '/') { t[k++] = 'C'; t[k++] = ':'; } else { for (; CWD[k]; k++) t[k] = CWD[k]; t[k++] = '\\'; } }
    for (int i = 0; n[i]; i++) { if (k > 120) sx_cut("path too long for the model"); t[k++] = n[i] == '/' ? '\\' : n[i]; } t[k] = 0; if (!b || k + 1 > len) return k + 1; for (DWORD j = 0; j <= k; j++) b[j] = t[j]; return k; }
#ifdef SX_ENGINE
static DWORD g_le; DWORD WINAPI GetLastError() { return g_le; } void WINAPI SetLastError(DWORD e) { g_le = e; }
BOOL WINAPI SetEnvironmentVariableW(LPCWSTR n, LPCWSTR v) { return sx_SetEnv(n, v); } DWORD WINAPI GetEnvironmentVariableW(LPCWSTR n, LPWSTR b, DWORD l) { return sx_GetEnv(n, b, l); }
DWORD WINAPI GetCurrentDirectoryW(DWORD l, LPWSTR b) { return sx_GetCwd(l, b); } DWORD WINAPI GetFileAttributesW(LPCWSTR n) { return sx_GetAttr(n); }
HANDLE WINAPI FindFirstFileW(LPCWSTR n, LPWIN32_FIND_DATAW d) { return sx_FindFirst(n, d); } BOOL WINAPI FindClose(HANDLE h) { return sx_FindClose(h); }
UINT WINAPI GetDriveTypeW(LPCWSTR n) { return sx_DriveType(n); } DWORD WINAPI GetFullPathNameW(LPCWSTR n, DWORD l, LPWSTR b, LPWSTR* f) { return sx_FullPath(n, l, b, f); }
errno_t _wputenv_s(const wchar_t*, const wchar_t*) { return 0; }
#else
void* __imp_SetEnvironmentVariableW = (void*)sx_SetEnv; void* __imp_GetEnvironmentVariableW = (void*)sx_GetEnv; void* __imp_GetCurrentDirectoryW = (void*)sx_GetCwd; void* __imp_GetFileAttributesW = (void*)sx_GetAttr;
void* __imp_FindFirstFileW = (void*)sx_FindFirst; void* __imp_FindClose = (void*)sx_FindClose; void* __imp_GetDriveTypeW = (void*)sx_DriveType; void* __imp_GetFullPathNameW = (void*)sx_FullPath;
#endif
}
