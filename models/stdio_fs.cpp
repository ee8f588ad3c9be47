// Files in memory behind the C stdio interface (engine builds only; native replays use the real CRT and file system).
#include <stdarg.h>
#include <stddef.h>
#include "sx.h"
#ifdef SX_ENGINE
typedef unsigned long long u64;
extern "C" {
void* malloc(size_t); void free(void*); void* memcpy(void*, const void*, size_t); int strcmp(const char*, const char*); size_t strlen(const char*); char* strcpy(char*, const char*);
int __mingw_vsnprintf(char* b, size_t n, const char* f, va_list ap);
struct SxFile { char name[64]; char* d; u64 n, cap; int exists; };
struct SxStream { SxFile* f; u64 pos; int rd, wr, text, app, open, eof; };
static SxFile g_files[8]; static SxStream g_streams[16]; int sx_open_streams;
static SxFile* sx_file(const char* n, int make) {
    if (strlen(n) >= 64) sx_cut("file name too long for the model");
    for (int i = 0; i < 8; i++) if (g_files[i].name[0] && !strcmp(g_files[i].name, n)) return &g_files[i];
    if (!make) return 0; for (int i = 0; i < 8; i++) if (!g_files[i].name[0]) { strcpy(g_files[i].name, n); return &g_files[i]; } sx_cut("too many files"); return 0;
}
static void put(SxFile* f, u64 pos, char c) { if (pos >= f->cap) { u64 nc = f->cap ? f->cap * 2 : 256; while (nc <= pos) nc *= 2; char* d = (char*)malloc(nc); if (f->n) memcpy(d, f->d, f->n); if (f->d) free(f->d); f->d = d; f->cap = nc; } f->d[pos] = c; if (pos >= f->n) f->n = pos + 1; }
void* fopen(const char* n, const char* m) {
    int w = m[0] == 'w', a = m[0] == 'a', excl = 0, plus = 0, text = 1; for (const char* p = m + 1; *p; p++) { if (*p == 'b') text = 0; if (*p == 'x') excl = 1; if (*p == '+') plus = 1; }
    SxFile* f = sx_file(n, w || a); if (!f || (!f->exists && !w && !a)) return 0; if (excl && f->exists) return 0;
    if (w) f->n = 0; f->exists = 1; 
    for (int i = 0; i < 16; i++) if (!g_streams[i].open) { SxStream* s = &g_streams[i]; s->f = f; s->pos = a ? f->n : 0; s->rd = !w && !a || plus; s->wr = w || a || plus; s->text = text; s->app = a; s->eof = 0; s->open = 1; sx_open_streams++; return s; }
    sx_cut("too many streams"); return 0;
}
int fclose(void* p) { SxStream* s = (SxStream*)p; sx_check(s && s->open, "a stream is closed twice or was never open"); s->open = 0; sx_open_streams--; return 0; }
static void chk(SxStream* s) { sx_check(s && s->open, "a closed stream is used"); }
int fseek(void* p, long off, int wh) { SxStream* s = (SxStream*)p; chk(s); s->eof = 0; s->pos = wh == 0 ? off : wh == 1 ? s->pos + off : s->f->n + off; return 0; }
long ftell(void* p) { SxStream* s = (SxStream*)p; chk(s); return (long)s->pos; }
int fflush(void*) { return 0; } int feof(void* p) { SxStream* s = (SxStream*)p; return s->eof; } int ferror(void*) { return 0; }
static int get1(SxStream* s) { if (s->pos >= s->f->n) { s->eof = 1; return -1; } int c = (unsigned char)s->f->d[s->pos++]; if (s->text && c == '\r' && s->pos < s->f->n && s->f->d[s->pos] == '\n') c = (unsigned char)s->f->d[s->pos++]; return c; }
size_t fread(void* b, size_t sz, size_t n, void* p) { SxStream* s = (SxStream*)p; chk(s); char* o = (char*)b; u64 t = sz * n, k = 0; if (!s->text) { k = s->f->n > s->pos ? s->f->n - s->pos : 0; if (k > t) k = t; if (k) memcpy(o, s->f->d + s->pos, k); s->pos += k; } else for (; k < t; k++) { int c = get1(s); if (c < 0) break; o[k] = (char)c; } return sz ? k / sz : 0; }
static void put1(SxStream* s, char c) { if (s->app) s->pos = s->f->n; if (s->text && c == '\n') { put(s->f, s->pos++, '\r'); } put(s->f, s->pos++, c); }
size_t fwrite(const void* b, size_t sz, size_t n, void* p) { SxStream* s = (SxStream*)p; chk(s); for (u64 i = 0; i < sz * n; i++) put1(s, ((const char*)b)[i]); return n; }
int fputs(const char* t, void* p) { SxStream* s = (SxStream*)p; chk(s); while (*t) put1(s, *t++); return 0; }
int fputc(int c, void* p) { SxStream* s = (SxStream*)p; chk(s); put1(s, (char)c); return c; }
int fgetc(void* p) { SxStream* s = (SxStream*)p; chk(s); return get1(s); } int ungetc(int c, void* p) { SxStream* s = (SxStream*)p; chk(s); sx_check(s->pos > 0 && c != -1, "ungetc"); s->pos--; s->eof = 0; return c; }
char* fgets(char* b, int n, void* p) { SxStream* s = (SxStream*)p; chk(s); int k = 0; while (k < n - 1) { int c = get1(s); if (c < 0) break; b[k++] = (char)c; if (c == '\n') break; } if (!k) return 0; b[k] = 0; return b; }
int __mingw_vfprintf(void* p, const char* f, va_list ap) { SxStream* s = (SxStream*)p; chk(s); va_list ap2; va_copy(ap2, ap); int n = __mingw_vsnprintf(0, 0, f, ap2); va_end(ap2); char* b = (char*)malloc(n + 1); __mingw_vsnprintf(b, n + 1, f, ap); for (int i = 0; i < n; i++) put1(s, b[i]); free(b); return n; }
int vfprintf(void* p, const char* f, va_list ap) { return __mingw_vfprintf(p, f, ap); }
int fprintf(void* p, const char* f, ...) { va_list ap; va_start(ap, f); int r = __mingw_vfprintf(p, f, ap); va_end(ap); return r; }
int __mingw_fprintf(void* p, const char* f, ...) { va_list ap; va_start(ap, f); int r = __mingw_vfprintf(p, f, ap); va_end(ap); return r; }
int remove(const char* n) { SxFile* f = sx_file(n, 0); if (!f || !f->exists) return -1; f->exists = 0; f->n = 0; return 0; } int unlink(const char* n) { return remove(n); } int _unlink(const char* n) { return remove(n); }
}
#endif
