#pragma once
#define WIN32_LEAN_AND_MEAN
#include <windows.h>
// The console's queue of input records, and what it answers to a request that is written to it.
struct SxIn { INPUT_RECORD q[64]; int n, at; const char* answer; int answer_at; DWORD ticks, mode; int written; wchar_t out[64]; int menus, scrolls; };
extern "C" SxIn sx_in;
