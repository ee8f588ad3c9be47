// C runtime model for the symbolic executor (engine builds only; native replays use the real CRT).
#include <stdarg.h>
#include <stddef.h>
typedef unsigned long long u64; typedef unsigned int u32; typedef unsigned short u16; typedef unsigned char u8;
extern "C" {
void* malloc(size_t); void free(void*); void* memcpy(void*, const void*, size_t); void sx_cut(const char*); u64 sx_conc(u64);
size_t strlen(const char* s) { const char* p = s; while (*p) p++; return p - s; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
size_t wcslen(const wchar_t* s) { const wchar_t* p = s; while (*p) p++; return p - s; }
size_t wcsnlen(const wchar_t* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int strcmp(const char* a, const char* b) { for (;; a++, b++) { u8 x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { u8 x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int wcscmp(const wchar_t* a, const wchar_t* b) { for (;; a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } }
int wcsncmp(const wchar_t* a, const wchar_t* b, size_t n) { for (; n; a++, b++, n--) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } return 0; }
static inline int lc(int c) { return (c - 'A') < 26u ? c + 32 : c; }
int _stricmp(const char* a, const char* b) { for (;; a++, b++) { int x = lc((u8)*a), y = lc((u8)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int stricmp(const char* a, const char* b) { return _stricmp(a, b); }
int strcasecmp(const char* a, const char* b) { return _stricmp(a, b); }
int _strcmpi(const char* a, const char* b) { return _stricmp(a, b); }
int strcmpi(const char* a, const char* b) { return _stricmp(a, b); }
int _strnicmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { int x = lc((u8)*a), y = lc((u8)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strnicmp(const char* a, const char* b, size_t n) { return _strnicmp(a, b, n); }
int strncasecmp(const char* a, const char* b, size_t n) { return _strnicmp(a, b, n); }
static inline wchar_t wlc(wchar_t c) { return (wchar_t)(c - L'A') < 26 ? c + 32 : c; }
int _wcsicmp(const wchar_t* a, const wchar_t* b) { for (;; a++, b++) { wchar_t x = wlc(*a), y = wlc(*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int wcsicmp(const wchar_t* a, const wchar_t* b) { return _wcsicmp(a, b); }
int _wcsnicmp(const wchar_t* a, const wchar_t* b, size_t n) { for (; n; a++, b++, n--) { wchar_t x = wlc(*a), y = wlc(*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int wcsnicmp(const wchar_t* a, const wchar_t* b, size_t n) { return _wcsnicmp(a, b, n); }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
wchar_t* wcscpy(wchar_t* d, const wchar_t* s) { wchar_t* r = d; while ((*d++ = *s++)); return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
wchar_t* wcscat(wchar_t* d, const wchar_t* s) { wcscpy(d + wcslen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); while (n-- && *s) *e++ = *s++; *e = 0; return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
wchar_t* wcschr(const wchar_t* s, wchar_t c) { for (;; s++) { if (*s == c) return (wchar_t*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
wchar_t* wcsrchr(const wchar_t* s, wchar_t c) { const wchar_t* r = 0; for (;; s++) { if (*s == c) r = s; if (!*s) return (wchar_t*)r; } }
// constant sets are compared without splitting the path per set member
static inline int inset(char c, const char* set) { int r = 0; for (; *set; set++) r |= (c == *set); return r; }
char* strpbrk(const char* s, const char* set) { for (; *s; s++) if (inset(*s, set)) return (char*)s; return 0; }
size_t strspn(const char* s, const char* set) { size_t n = 0; while (s[n] && inset(s[n], set)) n++; return n; }
size_t strcspn(const char* s, const char* set) { size_t n = 0; while (s[n] && !inset(s[n], set)) n++; return n; }
char* strstr(const char* h, const char* n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return 0; } }
wchar_t* wcsstr(const wchar_t* h, const wchar_t* n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (wchar_t*)h; if (!*h) return 0; } }
void* memchr(const void* p, int c, size_t n) { const u8* s = (const u8*)p; for (; n; n--, s++) if (*s == (u8)c) return (void*)s; return 0; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
char* _strdup(const char* s) { return strdup(s); }
static char* g_tokp;
char* strtok(char* s, const char* d) { if (s) g_tokp = s; if (!g_tokp) return 0; char* p = g_tokp + strspn(g_tokp, d); if (!*p) { g_tokp = 0; return 0; } char* e = p + strcspn(p, d); if (*e) { *e = 0; g_tokp = e + 1; } else g_tokp = 0; return p; }
// ctype, "C" locale
#define U(x, lo, hi) ((u32)((x) - (lo)) <= (u32)((hi) - (lo)))
int isupper(int c) { return U(c, 'A', 'Z'); } int islower(int c) { return U(c, 'a', 'z'); } int isalpha(int c) { return U((c | 32), 'a', 'z') & ((u32)c < 256); } int isdigit(int c) { return U(c, '0', '9'); }
int isalnum(int c) { return isalpha(c) | isdigit(c); } int isspace(int c) { return (c == ' ') | U(c, 9, 13); } int isblank(int c) { return (c == ' ') | (c == 9); } int iscntrl(int c) { return U(c, 0, 31) | (c == 127); } int isprint(int c) { return U(c, 32, 126); } int isgraph(int c) { return U(c, 33, 126); }
int ispunct(int c) { return U(c, 33, 126) & !isalnum(c); } int isxdigit(int c) { return isdigit(c) | (U((c | 32), 'a', 'f') & ((u32)c < 256)); }
int tolower(int c) { return isupper(c) ? c + 32 : c; } int toupper(int c) { return islower(c) ? c - 32 : c; }
int iswalpha(u16 c) { return U((c | 32), 'a', 'z') & (c < 128); } int iswdigit(u16 c) { return U(c, '0', '9'); } int iswalnum(u16 c) { return iswalpha(c) | iswdigit(c); } int iswspace(u16 c) { return (c == ' ') | U(c, 9, 13) | (c == 0xa0) | (c == 0x85); } int iswupper(u16 c) { return U(c, 'A', 'Z'); } int iswlower(u16 c) { return U(c, 'a', 'z'); } u16 towlower(u16 c) { return U(c, 'A', 'Z') ? c + 32 : c; } u16 towupper(u16 c) { return U(c, 'a', 'z') ? c - 32 : c; }
int iswctype(u16 c, u16 t) { int r = 0; r |= (t & 1) && iswupper(c); r |= (t & 2) && iswlower(c); r |= (t & 4) && iswdigit(c); r |= (t & 8) && iswspace(c); r |= (t & 0x100) && iswalpha(c); if (t & 0x80) r |= iswdigit(c) | U(c | 32, 'a', 'f'); if (t & 0x10) r |= (c < 128) & ispunct(c); if (t & 0x20) r |= (c < 32) | (c == 127); if (t & 0x40) r |= (c == ' ') | (c == 9); return r; }
int __isascii(int c) { return (u32)c < 128; }
static u64 ston(const char* s, char** e, int base, int* neg, int* any) {
    while (isspace((u8)*s)) s++; *neg = 0; if (*s == '-') { *neg = 1; s++; } else if (*s == '+') s++;
    if ((base == 0 || base == 16) && s[0] == '0' && (s[1] | 32) == 'x') { s += 2; base = 16; } else if (base == 0) base = s[0] == '0' ? 8 : 10;
    u64 v = 0; *any = 0; for (;; s++) { int c = (u8)*s, d; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = (c | 32) - 'a' + 10; else break; if (d >= base) break; v = v * base + d; *any = 1; } if (e) *e = (char*)s; return v; }
// (long is 32 bits; saturation is modelled)
long strtol(const char* s, char** e, int base) { int n, a; char* q; u64 v = ston(s, &q, base, &n, &a); if (e) *e = a ? q : (char*)s; if (n) return v > 0x80000000ull ? (long)0x80000000 : (long)-(long long)v; return v > 0x7fffffff ? 0x7fffffff : (long)v; }
unsigned long strtoul(const char* s, char** e, int base) { int n, a; char* q; u64 v = ston(s, &q, base, &n, &a); if (e) *e = a ? q : (char*)s; if (v > 0xffffffffull) return 0xffffffff; return n ? (u32)-(u32)v : (u32)v; }
long long strtoll(const char* s, char** e, int base) { int n, a; char* q; u64 v = ston(s, &q, base, &n, &a); if (e) *e = a ? q : (char*)s; return n ? -(long long)v : (long long)v; }
unsigned long long strtoull(const char* s, char** e, int base) { int n, a; char* q; u64 v = ston(s, &q, base, &n, &a); if (e) *e = a ? q : (char*)s; return n ? (u64)-v : v; }
int atoi(const char* s) { return (int)strtol(s, 0, 10); } long atol(const char* s) { return strtol(s, 0, 10); }
char* _itoa(int v, char* b, int base) { char t[40]; int n = 0; u32 x = (base == 10 && v < 0) ? (u32)-(u32)v : (u32)v; do { int d = x % base; t[n++] = d < 10 ? '0' + d : 'a' + d - 10; x /= base; } while (x); char* p = b; if (base == 10 && v < 0) *p++ = '-'; while (n) *p++ = t[--n]; *p = 0; return b; }
char* itoa(int v, char* b, int base) { return _itoa(v, b, base); }
int _itoa_s(int v, char* b, size_t n, int base) { char t[40]; _itoa(v, t, base); size_t l = strlen(t); if (l + 1 > n) { if (n) b[0] = 0; return 34; } strcpy(b, t); return 0; }
int abs(int v) { return v < 0 ? -v : v; }
static void swapb(char* a, char* b, size_t n) { while (n--) { char t = *a; *a++ = *b; *b++ = t; } }
void qsort(void* p, size_t n, size_t w, int (*cmp)(const void*, const void*)) { char* a = (char*)p; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * w, a + j * w) > 0; j--) swapb(a + (j - 1) * w, a + j * w, w); }
void* bsearch(const void* k, const void* p, size_t n, size_t w, int (*cmp)(const void*, const void*)) { const char* a = (const char*)p; size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; int c = cmp(k, a + m * w); if (!c) return (void*)(a + m * w); if (c < 0) hi = m; else lo = m + 1; } return 0; }
static u32 g_seed = 1; int rand(void) { g_seed = g_seed * 214013 + 2531011; return (g_seed >> 16) & 0x7fff; } void srand(u32 s) { g_seed = s; }
static int g_errno; int* _errno(void) { return &g_errno; } int _get_errno(int* p) { *p = g_errno; return 0; } int _set_errno(int v) { g_errno = v; return 0; }
char* setlocale(int, const char*) { return (char*)"C"; }

// ---- formatted output
struct Out { char* c; wchar_t* w; size_t cap, n; };
static void put(Out* o, u32 ch) { if (o->n < o->cap) { if (o->c) o->c[o->n] = (char)ch; else o->w[o->n] = (wchar_t)ch; } o->n++; }
static u32 fch(const void* f, int wide, size_t i) { return wide ? ((const wchar_t*)f)[i] : ((const u8*)f)[i]; }
static void fmt(Out* o, const void* f, int wide, va_list ap) {
    for (size_t i = 0;; i++) {
        u32 c = fch(f, wide, i); if (!c) return; if (c != '%') { put(o, c); continue; }
        int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0;
        for (;;) { c = fch(f, wide, ++i); if (c == '-') left = 1; else if (c == '0') zero = 1; else if (c == '+') plus = 1; else if (c == ' ') space = 1; else if (c == '#') alt = 1; else break; }
        if (c == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } c = fch(f, wide, ++i); } else while (c >= '0' && c <= '9') { width = width * 10 + c - '0'; c = fch(f, wide, ++i); }
        if (c == '.') { prec = 0; c = fch(f, wide, ++i); if (c == '*') { prec = va_arg(ap, int); c = fch(f, wide, ++i); } else while (c >= '0' && c <= '9') { prec = prec * 10 + c - '0'; c = fch(f, wide, ++i); } }
        int shortv = 0;
        for (;;) { if (c == 'l') lng++; else if (c == 'h') shortv++; else if (c == 'z' || c == 'j' || c == 't') lng = 2; else if (c == 'w') lng = 1; else if (c == 'I') { if (fch(f, wide, i + 1) == '6' && fch(f, wide, i + 2) == '4') { i += 2; lng = 2; } else if (fch(f, wide, i + 1) == '3' && fch(f, wide, i + 2) == '2') i += 2; else lng = 2; } else break; c = fch(f, wide, ++i); }
        if (c == '%') { put(o, '%'); continue; }
        char tb[72]; int n = 0; const char* s = 0; const wchar_t* ws = 0; char pre[4]; int np = 0; size_t len = 0;
        if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
            u64 v; int neg = 0;
            if (c == 'd' || c == 'i') { long long sv = lng >= 2 ? va_arg(ap, long long) : (long long)va_arg(ap, int); if (sv < 0) { neg = 1; v = (u64)-sv; } else v = (u64)sv; }
            else if (c == 'p') { v = (u64)va_arg(ap, void*); } else v = lng >= 2 ? va_arg(ap, u64) : (u64)va_arg(ap, u32);
            v = sx_conc(v); neg = (int)sx_conc(neg);
            u32 base = (c == 'x' || c == 'X' || c == 'p') ? 16 : c == 'o' ? 8 : 10;
            u64 t = v; char rev[72]; int k = 0; if (!(v == 0 && prec == 0)) do { u32 d = t % base; rev[k++] = d < 10 ? '0' + d : (c == 'X' || c == 'p' ? 'A' : 'a') + d - 10; t /= base; } while (t);
            while (k < prec) rev[k++] = '0'; if (c == 'p') while (k < 16) rev[k++] = '0';
            while (k) tb[n++] = rev[--k]; s = tb; len = n;
            if (neg) pre[np++] = '-'; else if ((c == 'd' || c == 'i') && plus) pre[np++] = '+'; else if ((c == 'd' || c == 'i') && space) pre[np++] = ' ';
            if (alt && base == 16 && v) { pre[np++] = '0'; pre[np++] = (char)c; }
            int pad = width - (int)len - np; if (prec >= 0) zero = 0;
            if (!left && !zero) while (pad-- > 0) put(o, ' '); for (int q = 0; q < np; q++) put(o, (u8)pre[q]); if (!left && zero) while (pad-- > 0) put(o, '0'); for (size_t q = 0; q < len; q++) put(o, (u8)s[q]); if (left) while (pad-- > 0) put(o, ' ');
            continue;
        }
        if (c == 'c' || c == 'C') { u32 ch = (u32)va_arg(ap, int); int isw = c == 'C' ? !wide : (wide ? !shortv : lng); if (!isw) ch &= 0xff; else ch &= 0xffff; int pad = width - 1; if (!left) while (pad-- > 0) put(o, ' '); put(o, ch); if (left) while (pad-- > 0) put(o, ' '); continue; }
        if (c == 's' || c == 'S') {
            int isw = c == 'S' ? !wide : lng ? 1 : shortv ? 0 : wide; const void* p = va_arg(ap, void*); if (!p) { p = isw ? (const void*)L"(null)" : (const void*)"(null)"; }
            size_t l = 0; while ((prec < 0 || l < (size_t)prec) && fch(p, isw, l)) l++;
            int pad = width - (int)l; if (!left) while (pad-- > 0) put(o, ' '); for (size_t q = 0; q < l; q++) put(o, fch(p, isw, q)); if (left) while (pad-- > 0) put(o, ' ');
            continue;
        }
        sx_cut("printf conversion");
    }
}
int __mingw_vsnprintf(char* b, size_t n, const char* f, va_list ap) { Out o = {b, 0, n ? n - 1 : 0, 0}; fmt(&o, f, 0, ap); if (n) b[o.n < n ? o.n : n - 1] = 0; return (int)o.n; }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) { return __mingw_vsnprintf(b, n, f, ap); }
int _vsnprintf(char* b, size_t n, const char* f, va_list ap) { Out o = {b, 0, n, 0}; fmt(&o, f, 0, ap); if (o.n < n) b[o.n] = 0; return o.n > n ? -1 : (int)o.n; }
int __ms_vsnprintf(char* b, size_t n, const char* f, va_list ap) { return _vsnprintf(b, n, f, ap); }
int __mingw_vsprintf(char* b, const char* f, va_list ap) { Out o = {b, 0, ~(size_t)0, 0}; fmt(&o, f, 0, ap); b[o.n] = 0; return (int)o.n; }
int vsprintf(char* b, const char* f, va_list ap) { return __mingw_vsprintf(b, f, ap); }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = __mingw_vsprintf(b, f, ap); va_end(ap); return r; }
int __mingw_sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = __mingw_vsprintf(b, f, ap); va_end(ap); return r; }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = __mingw_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int __mingw_snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = __mingw_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int _vsnwprintf(wchar_t* b, size_t n, const wchar_t* f, va_list ap) { Out o = {0, b, n, 0}; fmt(&o, f, 1, ap); if (o.n < n) b[o.n] = 0; return o.n > n ? -1 : (int)o.n; }
int __mingw_vsnwprintf(wchar_t* b, size_t n, const wchar_t* f, va_list ap) { Out o = {0, b, n ? n - 1 : 0, 0}; fmt(&o, f, 1, ap); if (n) b[o.n < n ? o.n : n - 1] = 0; return o.n >= n ? -1 : (int)o.n; }
// sinks for diagnostics
int puts(const char*) { return 0; } int putchar(int c) { return c; } int printf(const char*, ...) { return 0; } int __mingw_vprintf(const char*, va_list) { return 0; } int __mingw_vfprintf(void*, const char*, va_list) { return 0; } int __mingw_printf(const char*, ...) { return 0; }
static char g_iob[3][64]; void* __acrt_iob_func(unsigned i) { return g_iob[i]; }
double atan2(double, double) { sx_cut("atan2"); return 0; } double pow(double, double) { sx_cut("pow"); return 0; } double sin(double) { sx_cut("sin"); return 0; } double cos(double) { sx_cut("cos"); return 0; } double exp(double) { sx_cut("exp"); return 0; }
}
