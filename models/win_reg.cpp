// The registry in memory, for the engine and for native replays: values by root, key path and view.
#include <windows.h>
#include "sx.h"
extern "C" {
struct RegVal { int used, open; HKEY root; int wow; wchar_t key[64]; wchar_t name[16]; DWORD type; DWORD size; wchar_t* data; };
static RegVal g_reg[6];
int sx_reg_users = 0;     // number of users listed under HKEY_USERS, named u0, u1...
static int req_(const wchar_t* a, const wchar_t* b) { for (; *a && (*a | 32) == (*b | 32); a++, b++) {} return *a == *b; }
static int known_(const wchar_t* n) { return req_(n, L"AutoRun") || req_(n, L"InstalledScripts"); }   // one value per key
static LSTATUS open_(HKEY root, LPCWSTR k, REGSAM sam, HKEY* out) {
    int wow = !!(sam & KEY_WOW64_32KEY); for (int i = 0; i < 6; i++) if (g_reg[i].open && g_reg[i].root == root && g_reg[i].wow == wow && req_(g_reg[i].key, k)) { *out = (HKEY)&g_reg[i]; return 0; }
    for (int i = 0; i < 6; i++) if (!g_reg[i].open) { g_reg[i].open = 1; g_reg[i].root = root; g_reg[i].wow = wow; int j = 0; do { if (j > 63) sx_cut("registry key too long"); g_reg[i].key[j] = k[j]; } while (k[j++]); *out = (HKEY)&g_reg[i]; return 0; }
    sx_cut("too many registry keys"); return 5; }
static LSTATUS WINAPI sx_RegCreateKeyExW(HKEY root, LPCWSTR k, DWORD, LPWSTR, DWORD, REGSAM sam, const LPSECURITY_ATTRIBUTES, PHKEY out, LPDWORD) { return open_(root, k, sam, out); }
static LSTATUS WINAPI sx_RegOpenKeyExW(HKEY root, LPCWSTR k, DWORD, REGSAM sam, PHKEY out) { return open_(root, k, sam, out); }
static LSTATUS WINAPI sx_RegCloseKey(HKEY) { return 0; }
static LSTATUS WINAPI sx_RegSetValueExW(HKEY h, LPCWSTR n, DWORD, DWORD type, const BYTE* d, DWORD size) { RegVal* r = (RegVal*)h; if (!known_(n)) sx_cut("registry value"); if (r->used) free(r->data); r->used = 1; r->type = type; r->size = size; r->data = (wchar_t*)malloc(size + 2); for (DWORD i = 0; i < size / 2; i++) r->data[i] = ((const wchar_t*)d)[i]; return 0; }
static LSTATUS WINAPI sx_RegQueryValueExW(HKEY h, LPCWSTR n, LPDWORD, LPDWORD type, LPBYTE d, LPDWORD size) { RegVal* r = (RegVal*)h; if (!r->used || !known_(n)) return ERROR_FILE_NOT_FOUND; if (type) *type = r->type; if (!size) return d ? ERROR_INVALID_PARAMETER : 0; DWORD have = *size; *size = r->size; if (!d) return 0; if (have < r->size) return ERROR_MORE_DATA; for (DWORD i = 0; i < r->size / 2; i++) ((wchar_t*)d)[i] = r->data[i]; return 0; }
static LSTATUS WINAPI sx_RegDeleteValueW(HKEY h, LPCWSTR n) { RegVal* r = (RegVal*)h; if (!r->used || !known_(n)) return ERROR_FILE_NOT_FOUND; free(r->data); r->used = 0; return 0; }
// Unlike RegQueryValueExW this one sees to the terminator of a string.
static LSTATUS WINAPI sx_RegGetValueW(HKEY root, LPCWSTR k, LPCWSTR n, DWORD flags, LPDWORD type, PVOID d, LPDWORD size) { HKEY h; if (open_(root, k, 0, &h)) return 5; RegVal* r = (RegVal*)h; if (!r->used || !known_(n)) return ERROR_FILE_NOT_FOUND; if (!(flags & RRF_RT_REG_SZ) || r->type != REG_SZ) return ERROR_UNSUPPORTED_TYPE; if (type) *type = r->type;
    DWORD u = r->size / 2, need = (u && !r->data[u - 1] ? u : u + 1) * 2; if (!size) return d ? ERROR_INVALID_PARAMETER : 0; DWORD have = *size; *size = need; if (!d) return 0; if (have < need) return ERROR_MORE_DATA; for (DWORD i = 0; i < u; i++) ((wchar_t*)d)[i] = r->data[i]; ((wchar_t*)d)[need / 2 - 1] = 0; return 0; }
static LSTATUS WINAPI sx_RegEnumKeyExW(HKEY, DWORD i, LPWSTR n, LPDWORD len, LPDWORD, LPWSTR, LPDWORD, PFILETIME) { if ((int)i >= sx_reg_users) return ERROR_NO_MORE_ITEMS; n[0] = 'u'; n[1] = (wchar_t)('0' + i); n[2] = 0; *len = 2; return 0; }
#ifdef SX_ENGINE
LSTATUS WINAPI RegCreateKeyExW(HKEY a, LPCWSTR b, DWORD c, LPWSTR d, DWORD e, REGSAM f, const LPSECURITY_ATTRIBUTES g, PHKEY h, LPDWORD i) { return sx_RegCreateKeyExW(a, b, c, d, e, f, g, h, i); }
LSTATUS WINAPI RegOpenKeyExW(HKEY a, LPCWSTR b, DWORD c, REGSAM d, PHKEY e) { return sx_RegOpenKeyExW(a, b, c, d, e); }
LSTATUS WINAPI RegCloseKey(HKEY a) { return 0; }
LSTATUS WINAPI RegSetValueExW(HKEY a, LPCWSTR b, DWORD c, DWORD d, const BYTE* e, DWORD f) { return sx_RegSetValueExW(a, b, c, d, e, f); }
LSTATUS WINAPI RegQueryValueExW(HKEY a, LPCWSTR b, LPDWORD c, LPDWORD d, LPBYTE e, LPDWORD f) { return sx_RegQueryValueExW(a, b, c, d, e, f); }
LSTATUS WINAPI RegGetValueW(HKEY a, LPCWSTR b, LPCWSTR c, DWORD d, LPDWORD e, PVOID f, LPDWORD g) { return sx_RegGetValueW(a, b, c, d, e, f, g); }
LSTATUS WINAPI RegDeleteValueW(HKEY a, LPCWSTR b) { return sx_RegDeleteValueW(a, b); }
LSTATUS WINAPI RegEnumKeyExW(HKEY a, DWORD b, LPWSTR c, LPDWORD d, LPDWORD e, LPWSTR f, LPDWORD g, PFILETIME h) { return sx_RegEnumKeyExW(a, b, c, d, e, f, g, h); }
int WINAPI WideCharToMultiByte(UINT, DWORD, LPCWCH s, int n, LPSTR d, int dn, LPCCH, LPBOOL) { int i = 0; for (;; i++) { if (n >= 0 && i >= n) break; if (s[i] > 127) sx_cut("characters beyond ASCII"); if (dn) { if (i >= dn) return 0; d[i] = (char)s[i]; } if (n < 0 && !s[i]) { i++; break; } } return i; }
void WINAPI GetNativeSystemInfo(LPSYSTEM_INFO s) { memset(s, 0, sizeof *s); s->wProcessorArchitecture = PROCESSOR_ARCHITECTURE_AMD64; }
static char g_pgm[] = "C:\\Pr d\\clink\\clink_x64.exe", *g_pgmp = g_pgm; char** __p__pgmptr(void) { return &g_pgmp; } char** __imp__pgmptr = &g_pgmp;
#else
void *__imp_RegCreateKeyExW = (void*)sx_RegCreateKeyExW, *__imp_RegOpenKeyExW = (void*)sx_RegOpenKeyExW, *__imp_RegCloseKey = (void*)sx_RegCloseKey, *__imp_RegSetValueExW = (void*)sx_RegSetValueExW, *__imp_RegQueryValueExW = (void*)sx_RegQueryValueExW, *__imp_RegGetValueW = (void*)sx_RegGetValueW, *__imp_RegDeleteValueW = (void*)sx_RegDeleteValueW, *__imp_RegEnumKeyExW = (void*)sx_RegEnumKeyExW;
static char g_pgm[] = "C:\\Pr d\\clink\\clink_x64.exe", *g_pgmp = g_pgm; char** __imp__pgmptr = &g_pgmp; static char** pg_(void) { return &g_pgmp; } void* __imp___p__pgmptr = (void*)pg_;
#endif
}
