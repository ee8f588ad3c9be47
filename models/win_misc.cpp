// Clocks (engine builds only).
#include <windows.h>
#include "sx.h"
#ifdef SX_ENGINE
extern "C" {
static LONGLONG g_qpc;
BOOL WINAPI QueryPerformanceFrequency(LARGE_INTEGER* p) { p->QuadPart = 1000000; return 1; }
BOOL WINAPI QueryPerformanceCounter(LARGE_INTEGER* p) { p->QuadPart = g_qpc += 1000; return 1; }
}
#endif
