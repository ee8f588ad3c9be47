RL = 'extern "C" {\n#include "readline/readline.h"\n#include "readline/history.h"\n}\n'
SEED("queue_wide_tail", "Q01", "a line of which the first character was already read, then more text of the same line arrives", "the text that arrives later is not read",
 [("clink/lib/src/line_queue.cpp", "            if (back.m_wchar_cursor > 0)\n", "            if (back.m_wchar_cursor > 1)\n")], r'''
 line_queue q; q.enqueue_back("ab"); wchar_t c; bool nl; CHECK(q.dequeue_char(&c, nl) && c == 'a'); q.enqueue_back("cd\n"); str<> o; dequeue_flags f; CHECK(q.dequeue_line(o, f)); CHECK(o.equals("bcd\r\n"));''', '#include "lib/line_queue.h"\n')
SEED("transpose_overlap", "R01", "a line with one word behind spaces", "transposing words where there is only one damages the line",
 [("readline/readline/text.c", "if ((w1_beg == w2_beg) || (w2_beg < w1_end))", "if (w1_beg == w2_beg)")], r'''
 rl_line_buffer = 0; rl_extend_line_buffer(100); rl_line_buffer[0] = 0; rl_insert_text("  ab"); rl_transpose_words(1, 0); CHECK(!strcmp(rl_line_buffer, "  ab"));''', RL)
SEED("saved_line_undo", "R02", "typing, going to an earlier line and coming back, then undo", "the typed line can't be undone any more",
 [("readline/readline/misc.c", "  ret->data = (char *)rl_undo_list;\n\n  return ret;", "  ret->data = (char *)NULL;\n\n  return ret;")], r'''
 using_history(); add_history("first"); add_history("second"); using_history(); rl_extend_line_buffer(100); rl_line_buffer[0] = 0; rl_insert_text("typed"); rl_get_previous_history(1, 0); CHECK(!strcmp(rl_line_buffer, "second")); rl_get_next_history(1, 0); CHECK(!strcmp(rl_line_buffer, "typed")); rl_do_undo(); CHECK(!strcmp(rl_line_buffer, ""));''', RL)
SEED("ellipsis_left_style", "T04", "a colour code among the characters that make room for the ellipsis", "the text behind the ellipsis loses its colour",
 [("clink/lib/src/ellipsify.cpp", "for (const run* walk = begin; walk < truncate_run; ++walk)", "for (const run* walk = begin; walk < r; ++walk)")], r'''
 str<> o; ellipsify_ex("abcde\x1b[31mfgh", 4, LEFT, o, "..", false); CHECK(strstr(o.c_str(), "\x1b[31m"));''', '#include "ellipsify.h"\n')
SEED("compact_limit_slots", "H02", "compaction that removes duplicates and applies a limit at once", "more lines than necessary are thrown away",
 [("clink/lib/src/history_db.cpp", "            if (lines_to_keep[--start].get())\n                --limit;\n", "            --start, --limit;\n")], r'''
 _putenv("CLINK_HISTORY_LABEL="); settings::find("history.shared")->set("true"); settings::find("history.dupe_mode")->set("add"); { history_db h("hist", 1, true); h.initialise(); h.load_rl_history(false); for (const char* s : { "a", "b", "c", "d", "d", "d" }) h.add(s); h.compact(true, true, 3); }
 char b[500] = {}; FILE* f = fopen("hist", "rb"); fread(b, 1, 499, f); fclose(f); printf("%s", b); CHECK(strstr(b, "\nb\n") && strstr(b, "\nc\n") && strstr(b, "\nd\n"));''', '#include "core/settings.h"\n#include "history_db.h"\n#include <time.h>\n')
SEED("else_in_skipped_if", "I02", "a $else inside of a $if that is itself inside of a $if whose condition doesn't hold", "bindings of a part that doesn't apply are made",
 [("readline/readline/bind.c", "  for (i = 0; i < if_stack_depth; i++)\n#endif\n    if (if_stack[i] == 1)", "  for (i = 0; i < if_stack_depth - 1; i++)\n#endif\n    if (if_stack[i] == 1)")], r'''
 rl_set_key("\x18z", rl_insert, rl_get_keymap()); for (const char* s : { "$if mode=nonsense", "$if term=nonsense", "$else", "\"\\C-xz\": beginning-of-line", "$endif", "$endif" }) { char b[100]; strcpy(b, s); rl_parse_and_bind(b); } int t; CHECK(rl_function_of_keyseq("\x18z", rl_get_keymap(), &t) != rl_beg_of_line);''', RL)
SEED("class_upper_casefold", "M03", "the class [:upper:] with case ignored", "lower case letters don't match",
 [("wildmatch/wildmatch/wildmatch.c", "c2 = check_flag(flags, WM_CASEFOLD) ? toupper((unsigned char)test) : test;", "c2 = check_flag(flags, WM_CASEFOLD) ? tolower((unsigned char)test) : test;")], r'''
 CHECK(wildmatch("[[:upper:]]x", "Ax", WM_CASEFOLD) == WM_MATCH); CHECK(wildmatch("[[:upper:]]x", "ax", WM_CASEFOLD) == WM_MATCH); CHECK(wildmatch("[[:upper:]]x", "ax", 0) != WM_MATCH);''', 'extern "C" {\n#include "wildmatch.h"\n}\n')
SEED("env_point_short_name", "E01", "the cursor behind an expanded variable", "the cursor is two characters off",
 [("clink/core/src/os.cpp", "                        *point += value.length() - (replaced_end - offset);", "                        *point += value.length() - var.length();")], r'''
 SetEnvironmentVariableA("AB", "xyz"); str<> o; int p = 6; os::expand_env("a%AB%cde", 8, o, &p); CHECK(o.equals("axyzcde")); CHECK(p == 5);''', '#include "core/os.h"\n')
SEED("chord_meta_control_end", "B01", "a chord of more than 60 keys that ends with a meta control key", "the translated chord is written beyond its buffer",
 [("clink/lib/src/binder.cpp", "                if (i >= (SIZE - 1) || !*chord)\n                    return false;", "                if (!*chord)\n                    return false;")], r'''
 static binder b; static char mod[64]; str<> c; for (int i = 0; i < 62; i++) c << "x"; c << "\\M-C-x"; CHECK(!b.bind(1, c.c_str(), *(editor_module*)mod, 1));''', '#include "binder.h"\n')
