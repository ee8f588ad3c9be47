// What the history code needs from the rest of Readline: an empty undo list, no saved line, no startup hook.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sx.h"
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/history.h>
#include <readline/histlib.h>
#include <readline/rlprivate.h>
HIST_ENTRY* _rl_saved_line_for_history = 0; rl_hook_func_t* _rl_internal_startup_hook = 0; UNDO_LIST* rl_undo_list = 0;
void _rl_free_undo_list(UNDO_LIST*) {}
int _rl_free_saved_history_line(void) { return 0; }
void _rl_start_using_history(void) { using_history(); }
void rl_clear_history(void) { clear_history(); }
char* rl_last_path_separator(const char* s) { char* r = 0; for (; *s; s++) if (*s == '/' || *s == '\\') r = (char*)s; return r; }
int hooked_fprintf(FILE*, const char*, ...) { return 0; }
char* sh_single_quote(const char*) { sx_cut("sh_single_quote"); return 0; }
int fnmatch(const char*, const char*, int) { sx_cut("fnmatch"); return 0; }
static int sx_wcw(char32_t) { return 1; } int (*wcwidth)(char32_t) = sx_wcw;
}
