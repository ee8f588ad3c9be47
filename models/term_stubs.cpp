// Environment of the terminal code: no console, default Windows version.
#define WIN32_LEAN_AND_MEAN
#include <windows.h>
#include "core/base.h"
#include "core/str.h"
#include "terminal/screen_buffer.h"
#ifdef SX_COLOR_EMOJI
bool g_color_emoji = true;
#else
bool g_color_emoji = false;
#endif
ansi_handler get_current_ansi_handler(str_base*) { return ansi_handler::winterminal; }
extern "C" HANDLE get_std_handle(DWORD) { return 0; }
void set_console_title(const char*) {}
