// Helpers shared by the harnesses.
#pragma once
#include "sx.h"
#include <string.h>
#include <stdlib.h>
#define WIN32_LEAN_AND_MEAN
#define NOMINMAX
#define _CRT_SECURE_NO_WARNINGS
#include <windows.h>
#include "core/base.h"
#include "core/str.h"
// A NUL terminated string of exactly n arbitrary non-NUL units, in its own exactly sized heap block.
template<typename T> static T* hx_str(int n, const char* name) {
    T* p = (T*)malloc((n + 1) * sizeof(T));
    if (n) sx_sym(p, n * sizeof(T), name);
    p[n] = 0;
    for (int i = 0; i < n; i++) sx_assume(p[i] != 0);
    return p;
}
// ... with every unit drawn from the given alphabet.
template<typename T> static T* hx_alpha(int n, const char* alpha, const char* name) {
    T* p = (T*)malloc((n + 1) * sizeof(T));
    if (n) sx_sym(p, n * sizeof(T), name);
    p[n] = 0;
    for (int i = 0; i < n; i++) { int ok = 0; for (const char* a = alpha; *a; a++) ok |= (p[i] == (T)(unsigned char)*a); sx_assume(ok); }
    return p;
}
static inline int hx_len(int lo, int hi, const char* name) { return (int)sx_conc(sx_int(lo, hi, name)); }
template<typename T> static int hx_slen(const T* s) { int n = 0; while (s[n]) n++; return n; }
template<typename T> static int hx_eq(const T* a, const T* b) { for (; *a && *a == *b; a++, b++) {} return *a == *b; }
template<typename T> static int hx_eqn(const T* a, const T* b, int n) { int r = 1; for (int i = 0; i < n; i++) r &= a[i] == b[i]; return r; }
template<typename T> static void hx_obs(const T* s) { int n = hx_slen(s); sx_obs(n); for (int i = 0; i < n; i++) sx_obs((sx_u64)(sizeof(T) == 1 ? (unsigned char)s[i] : (unsigned short)s[i])); }
static inline int hx_sep(int c) { return c == '/' || c == '\\'; }
static inline int hx_up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static inline int hx_isal(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
