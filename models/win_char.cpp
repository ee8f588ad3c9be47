// Character functions of Windows, for the characters whose case mapping is certain (engine builds only).
#include <windows.h>
#include "sx.h"
#ifdef SX_ENGINE
extern "C" {
LPWSTR WINAPI CharLowerW(LPWSTR p) { uintptr_t c = (uintptr_t)p; if (c >> 16) sx_cut("CharLowerW on a string"); 
    if (c >= 0x80 && c != 0xa0) { if (c >= 0xc0 && c <= 0xde && c != 0xd7) return (LPWSTR)(c + 32); if (c < 0x100) return p; sx_cut("CharLowerW beyond Latin-1"); }
    return (LPWSTR)((c >= 'A' && c <= 'Z') ? c + 32 : c); }
LPWSTR WINAPI CharUpperW(LPWSTR p) { uintptr_t c = (uintptr_t)p; if (c >> 16) sx_cut("CharUpperW on a string"); if (c >= 0x80) sx_cut("CharUpperW beyond ASCII"); return (LPWSTR)((c >= 'a' && c <= 'z') ? c - 32 : c); }
}
#endif
