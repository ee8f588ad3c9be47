RL = 'extern "C" {\n#include "readline/readline.h"\n#include "readline/history.h"\n}\n'
SEED("stray_right_quote", "S03", "a pair of different quote characters and a closing one outside of quotes", "a stray closing character starts a quoted part, which swallows the tokens behind it",
 [("clink/core/src/str_tokeniser.cpp", "        if (iter.left == left)\n", "        if (iter.left == left || iter.right == left)\n")], r'''
 str_tokeniser t("a) b c", " "); t.add_quote_pair("()"); str<> o; t.next(o); CHECK(o.equals("a)")); t.next(o); CHECK(o.equals("b")); t.next(o); CHECK(o.equals("c"));''', '#include "core/str_tokeniser.h"\n')
SEED("find_after_removal", "H01", "removing a line by its text when the history is larger than the buffer it is read with and the line is in it on both sides", "a line behind the first part of the file is not removed",
 [("clink/lib/src/history_db.cpp", "        SetFilePointer(m_handle_lines, file_ptr, nullptr, FILE_BEGIN);\n\n        if (!more)", "        if (!more)")], r'''
 _putenv("CLINK_HISTORY_LABEL="); settings::find("history.shared")->set("true"); settings::find("history.dupe_mode")->set("add"); int n = 0; { history_db h("hist", 1, true); h.initialise(); h.load_rl_history(false); h.add("x"); str<> l; for (int i = 0; i < 900; i++) { l.format("%0100d", i); h.add(l.c_str()); } h.add("x"); CHECK(h.remove("x") == 2); }''', '#include "core/settings.h"\n#include "history_db.h"\n#include <time.h>\n')
SEED("find_attr_mask", "X02", "looking for a line by one part of its colour with an attribute that has bits outside of that part", "lines with that colour are not found",
 [("clink/terminal/src/find_line.cpp", "if ((BYTE(*attr) & mask) == (*find_attr & mask))", "if ((BYTE(*attr) & mask) == *find_attr)")], r'''
 CONSOLE_SCREEN_BUFFER_INFO c = {}; c.dwSize.X = 4; c.dwSize.Y = 2; wchar_t ch[10]; WORD at[10]; BYTE a = 0x17; CHECK(find_line(0, c, ch, 10, at, 10, 1, -2, nullptr, find_line_mode::none, &a, 1, 0x0f) == 1);''', '#include "terminal/find_line.h"\nextern "C" BOOL WINAPI my_attr(HANDLE, WORD* a, DWORD n, COORD, DWORD* len) { for (DWORD i = 0; i < n; i++) a[i] = 0x27; *len = n; return 1; } extern "C" void* __imp_ReadConsoleOutputAttribute = (void*)my_attr;\n')
SEED("escaped_amp_backslash", "E02", "a substitution of which the new text has an escaped &", "the old text is put in after a backslash instead of the &",
 [("readline/readline/histexpand.c", "	  if (subst_rhs[i] == '\\\\' && subst_rhs[i + 1] == '&')\n	    i++;\n", "	  if (subst_rhs[i] == '\\\\' && subst_rhs[i + 1] == '&' && i)\n	    i++;\n")], r'''
 using_history(); add_history("cat b"); char* o; int r = history_expand((char*)"!!:s/b/\\&x/", &o); CHECK(r >= 0); CHECK(!strcmp(o, "cat &x"));''', RL)
SEED("cd_slash_d_dash", "I01", "'cd /d-' without a space", "a line that names a directory '-' option goes to the previous directory",
 [("clink/lib/src/intercept.cpp", "        have_space = false;\n        scan += 2;", "        scan += 2;")], r'''
 str<> o; CHECK(intercept_directory("cd /d -", &o) == intercept_result::prev_dir); CHECK(intercept_directory("cd /d-", &o) == intercept_result::none);''', '#include "lib/intercept.h"\n')
SEED("flag_then_emoji", "T03", "a regional indicator followed by an emoji", "the two are taken as one flag of two cells",
 [("clink/terminal/src/wcwidth_iter.cpp", "m_next >= 0x1f1e6 && m_next <= 0x1f1ff)", "m_next >= 0x1f1e6)")], r'''
 g_color_emoji = true; wcwidth_iter i("\xf0\x9f\x87\xa6\xf0\x9f\x98\x80"); i.next(); CHECK(i.character_length() == 4);''', '#include "terminal/wcwidth.h"\nextern bool g_color_emoji;\n')
SEED("dup_append_break", "W01", "'2>>&1' in a command", "the & of the redirection ends the command",
 [("clink/lib/src/cmd_tokenisers.cpp", "    /* sDOut2 */      { sARG,   sARG,   sARG,   sBAD,   sBAD,   sReAm,  sBAD,   },", "    /* sDOut2 */      { sARG,   sARG,   sARG,   sBAD,   sBAD,   sBAD,   sBAD,   },")], r'''
 cmd_command_tokeniser t; str_iter i("a 2>>&1 b"); t.begin_line(); t.start(i, "\"", true); uint32 o, l; t.next(o, l); CHECK(o == 0 && l == 9);''', '#include "core/str_iter.h"\n#include "lib/cmd_tokenisers.h"\n')
SEED("isearch_whole_line", "R03", "an incremental search for the whole text of a line", "the line that is exactly what was typed is not found",
 [("readline/readline/isearch.c", "(cxt->search_string_index > cxt->sline_len));", "(cxt->search_string_index >= cxt->sline_len));")], r'''
 rl_redisplay_function = nothing; rl_executing_keyseq = (char*)malloc(64); using_history(); add_history("a"); add_history("xyz"); using_history(); rl_line_buffer = 0; rl_extend_line_buffer(100); rl_line_buffer[0] = 0; rl_reverse_search_history(1, 0); CHECK(!strcmp(rl_line_buffer, "a"));''', RL + 'extern "C" { static const char* keys = "a\\r"; int rl_read_key() { return *keys ? *keys++ : 13; } int rl_ding() { return 0; } int rl_clear_message() { return 0; } void rl_message(const char*, ...) {} } static void nothing() {}\n')
