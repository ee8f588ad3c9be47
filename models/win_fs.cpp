// Files in memory behind the Win32 file interface: sharing, delete-on-close, offsets and ends of files (engine builds only; native replays use the real one).
#include <windows.h>
#include <time.h>
#include "sx.h"
extern "C" { int sx_writes_left = -1; }     // how many more writes reach the file before the process dies, or -1
#ifdef SX_ENGINE
extern "C" {
struct SxWFile { wchar_t name[64]; char* d; unsigned n, cap; int exists, delpend, opens; };
struct SxWHandle { SxWFile* f; unsigned pos, access, share; int open, del, locks; };
static SxWFile g_wf[16]; static SxWHandle g_wh[32]; static DWORD g_err, g_tick; int sx_wopen;
static int weq(const wchar_t* a, const wchar_t* b) { for (; *a && *a == *b; a++, b++) {} return *a == *b; }
static int wl(const wchar_t* a) { int n = 0; while (a[n]) n++; return n; }
static SxWFile* sx_wfile(const wchar_t* n, int make) {
    if (wl(n) >= 64) sx_cut("file name too long for the model");
    for (int i = 0; i < 16; i++) if (g_wf[i].exists && weq(g_wf[i].name, n)) return &g_wf[i];
    if (!make) return 0;
    for (int i = 0; i < 16; i++) if (!g_wf[i].exists) { int k = 0; do g_wf[i].name[k] = n[k]; while (n[k++]); g_wf[i].exists = 1; g_wf[i].n = 0; g_wf[i].delpend = 0; g_wf[i].opens = 0; return &g_wf[i]; }
    sx_cut("too many files"); return 0;
}
static SxWHandle* H(HANDLE h) { SxWHandle* p = (SxWHandle*)h; sx_check(p >= g_wh && p < g_wh + 32 && p->open, "a handle that isn't open is used"); return p; }
DWORD WINAPI GetLastError() { return g_err; } void WINAPI SetLastError(DWORD e) { g_err = e; }
static int sharing(SxWFile* f, unsigned a, unsigned s) { if (a) for (int i = 0; i < 32; i++) if (g_wh[i].open && g_wh[i].f == f && g_wh[i].access && ((a & ~g_wh[i].share) || (g_wh[i].access & ~s))) return 1; return 0; }
HANDLE WINAPI CreateFileW(LPCWSTR n, DWORD acc, DWORD share, LPSECURITY_ATTRIBUTES, DWORD disp, DWORD flags, HANDLE) {
    unsigned a = (acc & (GENERIC_READ | FILE_READ_DATA) ? 1 : 0) | (acc & (GENERIC_WRITE | FILE_WRITE_DATA) ? 2 : 0) | (acc & DELETE || flags & FILE_FLAG_DELETE_ON_CLOSE ? 4 : 0);
    SxWFile* f = sx_wfile(n, 0); g_err = 0;
    if (f && f->delpend) { g_err = ERROR_ACCESS_DENIED; return INVALID_HANDLE_VALUE; }
    if (!f && (disp == OPEN_EXISTING || disp == TRUNCATE_EXISTING)) { g_err = ERROR_FILE_NOT_FOUND; return INVALID_HANDLE_VALUE; }
    if (f && disp == CREATE_NEW) { g_err = ERROR_FILE_EXISTS; return INVALID_HANDLE_VALUE; }
    if (f && sharing(f, a, share)) { g_err = ERROR_SHARING_VIOLATION; return INVALID_HANDLE_VALUE; }
    if (f) { if (disp == CREATE_ALWAYS || disp == TRUNCATE_EXISTING) f->n = 0; if (disp == CREATE_ALWAYS || disp == OPEN_ALWAYS) g_err = ERROR_ALREADY_EXISTS; } else f = sx_wfile(n, 1);
    for (int i = 0; i < 32; i++) if (!g_wh[i].open) { g_wh[i].f = f; g_wh[i].pos = 0; g_wh[i].access = a; g_wh[i].share = share; g_wh[i].open = 1; g_wh[i].locks = 0; g_wh[i].del = !!(flags & FILE_FLAG_DELETE_ON_CLOSE); f->opens++; sx_wopen++; return &g_wh[i]; }
    sx_cut("too many handles"); return 0;
}
BOOL WINAPI CloseHandle(HANDLE h) { SxWHandle* p = H(h); p->open = 0; sx_wopen--; SxWFile* f = p->f; if (p->del) f->delpend = 1; if (!--f->opens && f->delpend) { f->exists = 0; f->n = 0; } return 1; }
BOOL WINAPI ReadFile(HANDLE h, LPVOID b, DWORD n, LPDWORD rd, LPOVERLAPPED) { SxWHandle* p = H(h); sx_check(p->access & 1, "read without read access"); unsigned k = p->pos < p->f->n ? p->f->n - p->pos : 0; if (k > n) k = n; for (unsigned i = 0; i < k; i++) ((char*)b)[i] = p->f->d[p->pos + i]; p->pos += k; if (rd) *rd = k; return 1; }
BOOL WINAPI WriteFile(HANDLE h, LPCVOID b, DWORD n, LPDWORD wr, LPOVERLAPPED) { SxWHandle* p = H(h); SxWFile* f = p->f; sx_check(p->access & 2, "write without write access"); if (!sx_writes_left) return 0; if (sx_writes_left > 0) sx_writes_left--; unsigned e = p->pos + n;
    if (e > f->cap) { unsigned nc = f->cap ? f->cap : 128; while (nc < e) nc *= 2; char* d = (char*)malloc(nc); for (unsigned i = 0; i < f->n; i++) d[i] = f->d[i]; free(f->d); f->d = d; f->cap = nc; }
    for (unsigned i = f->n; i < p->pos; i++) f->d[i] = 0; for (unsigned i = 0; i < n; i++) f->d[p->pos + i] = ((const char*)b)[i]; p->pos = e; if (e > f->n) f->n = e; if (wr) *wr = n; return 1; }
DWORD WINAPI SetFilePointer(HANDLE h, LONG o, PLONG, DWORD m) { SxWHandle* p = H(h); p->pos = m == FILE_BEGIN ? (unsigned)o : m == FILE_CURRENT ? p->pos + o : p->f->n + o; g_err = 0; return p->pos; }
BOOL WINAPI SetEndOfFile(HANDLE h) { SxWHandle* p = H(h); sx_check(p->access & 2, "truncated without write access"); if (p->pos <= p->f->n) p->f->n = p->pos; else { char c = 0; unsigned at = p->pos; p->pos--; DWORD w; WriteFile(h, &c, 1, &w, 0); p->pos = at; } return 1; }
DWORD WINAPI GetFileSize(HANDLE h, LPDWORD hi) { if (hi) *hi = 0; return H(h)->f->n; }
BOOL WINAPI GetFileSizeEx(HANDLE h, PLARGE_INTEGER s) { s->QuadPart = H(h)->f->n; return 1; }
BOOL WINAPI LockFileEx(HANDLE h, DWORD fl, DWORD, DWORD, DWORD, LPOVERLAPPED) { SxWHandle* p = H(h);      // one thread: waiting for another handle's lock would never end
    for (int i = 0; i < 32; i++) if (g_wh[i].open && g_wh[i].f == p->f && g_wh[i].locks) sx_check(!(fl & LOCKFILE_EXCLUSIVE_LOCK) && !(g_wh[i].locks & 256), "deadlock on a file lock"); 
    p->locks += 1; if (fl & LOCKFILE_EXCLUSIVE_LOCK) p->locks |= 256; return 1; }
BOOL WINAPI UnlockFileEx(HANDLE h, DWORD, DWORD, DWORD, LPOVERLAPPED) { SxWHandle* p = (SxWHandle*)h; if (!p->open) { g_err = ERROR_INVALID_HANDLE; return 0; } sx_check((p->locks & 255) != 0, "unlocked but not locked"); p->locks = (p->locks & 255) - 1; return 1; }
BOOL WINAPI DeleteFileW(LPCWSTR n) { SxWFile* f = sx_wfile(n, 0); if (!f) { g_err = ERROR_FILE_NOT_FOUND; return 0; } if (f->delpend) { g_err = ERROR_ACCESS_DENIED; return 0; } if (sharing(f, 4, 7)) { g_err = ERROR_SHARING_VIOLATION; return 0; } f->delpend = 1; if (!f->opens) { f->exists = 0; f->n = 0; } return 1; }
DWORD WINAPI GetFileAttributesW(LPCWSTR n) { SxWFile* f = sx_wfile(n, 0); if (!f) { g_err = ERROR_FILE_NOT_FOUND; return INVALID_FILE_ATTRIBUTES; } return FILE_ATTRIBUTE_NORMAL; }
BOOL WINAPI GetFileAttributesExW(LPCWSTR n, GET_FILEEX_INFO_LEVELS, LPVOID o) { SxWFile* f = sx_wfile(n, 0); if (!f) { g_err = ERROR_FILE_NOT_FOUND; return 0; } WIN32_FILE_ATTRIBUTE_DATA* d = (WIN32_FILE_ATTRIBUTE_DATA*)o; memset(d, 0, sizeof *d); d->dwFileAttributes = FILE_ATTRIBUTE_NORMAL; d->nFileSizeLow = f->n; return 1; }
// Finding files: the pattern may end in one star; the names come in order, as NTFS gives them.
struct SxFind { wchar_t pat[64]; wchar_t last[64]; int used; }; static SxFind g_find[4];
static int wcmp(const wchar_t* a, const wchar_t* b) { for (; *a && *a == *b; a++, b++) {} return (int)*a - (int)*b; }
static int fmatch(const wchar_t* p, const wchar_t* n) { for (; *p && *p != '*'; p++, n++) if (*p != *n) return 0; if (*p == '*') { if (p[1]) sx_cut("pattern beyond the model"); return 1; } return !*n; }
BOOL WINAPI FindNextFileW(HANDLE h, LPWIN32_FIND_DATAW d) { SxFind* s = (SxFind*)h; SxWFile* best = 0; for (int i = 0; i < 16; i++) { SxWFile* f = &g_wf[i]; if (f->exists && fmatch(s->pat, f->name) && wcmp(f->name, s->last) > 0 && (!best || wcmp(f->name, best->name) < 0)) best = f; }
    if (!best) { g_err = ERROR_NO_MORE_FILES; return 0; } int k = 0; do { s->last[k] = best->name[k]; d->cFileName[k] = best->name[k]; } while (best->name[k++]); d->dwFileAttributes = FILE_ATTRIBUTE_NORMAL; d->nFileSizeHigh = 0; d->nFileSizeLow = best->n; return 1; }
BOOL WINAPI FindClose(HANDLE h) { ((SxFind*)h)->used = 0; return 1; }
HANDLE WINAPI FindFirstFileW(LPCWSTR p, LPWIN32_FIND_DATAW d) { for (int i = 0; i < 4; i++) if (!g_find[i].used) { SxFind* s = &g_find[i]; int k = 0; do s->pat[k] = p[k]; while (p[k++]); s->last[0] = 0; s->used = 1; memset(d, 0, sizeof *d); if (FindNextFileW(s, d)) return s; s->used = 0; g_err = ERROR_FILE_NOT_FOUND; return INVALID_HANDLE_VALUE; } sx_cut("too many searches"); return 0; }
DWORD WINAPI GetTickCount() { return g_tick += 16; } DWORD WINAPI GetCurrentProcessId() { return 77; } HANDLE WINAPI GetCurrentProcess() { return (HANDLE)-1; } DWORD WINAPI GetProcessId(HANDLE) { return 77; }
time_t _time64(time_t* t) { static time_t now = 1700000000; now += 1; if (t) *t = now; return now; }
}
#else
extern "C" {
static BOOL WINAPI sx_WriteFile(HANDLE h, LPCVOID b, DWORD n, LPDWORD wr, LPOVERLAPPED o) {
    static BOOL (WINAPI *real)(HANDLE, LPCVOID, DWORD, LPDWORD, LPOVERLAPPED); if (!real) *(FARPROC*)&real = GetProcAddress(GetModuleHandleA("kernel32.dll"), "WriteFile");
    if (!sx_writes_left) return 0; if (sx_writes_left > 0) sx_writes_left--; return real(h, b, n, wr, o); }
void* __imp_WriteFile = (void*)sx_WriteFile;
}
#endif
