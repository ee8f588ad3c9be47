#pragma once
#define WIN32_LEAN_AND_MEAN
#include <windows.h>
enum { SX_CON_W = 12, SX_CON_H = 6 };
struct SxCon { int w, h, top, bottom, cx, cy; WORD attr; wchar_t ch[SX_CON_H][SX_CON_W]; WORD at[SX_CON_H][SX_CON_W]; int beeps, titles; wchar_t title[32]; };
extern "C" SxCon sx_con;
