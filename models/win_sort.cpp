// The order of Windows for ASCII texts: case matters only between texts that are the same otherwise, small letters first (engine builds only).
#include <windows.h>
#include "sx.h"
#ifdef SX_ENGINE
extern "C" int WINAPI CompareStringW(LCID, DWORD f, PCNZWCH a, int n, PCNZWCH b, int m) {
    if (f & ~(SORT_DIGITSASNUMBERS | NORM_LINGUISTIC_CASING | LINGUISTIC_IGNORECASE)) sx_cut("CompareStringW flags");
    for (int pass = 0; pass < ((f & LINGUISTIC_IGNORECASE) ? 1 : 2); pass++)
        for (int i = 0; i < n || i < m; i++) {
            if (i >= n) return CSTR_LESS_THAN; if (i >= m) return CSTR_GREATER_THAN;
            int x = a[i], y = b[i]; if (x > 126 || y > 126 || (x >= '0' && x <= '9') || (y >= '0' && y <= '9')) sx_cut("CompareStringW beyond letters");
            if (!pass) { if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; } else { x ^= 32; y ^= 32; }
            if (x != y) return x < y ? CSTR_LESS_THAN : CSTR_GREATER_THAN;
        }
    return CSTR_EQUAL;
}
#endif
