RL = 'extern "C" {\n#include "readline/readline.h"\n#include "readline/history.h"\n}\n'
if 0: SEED("quote_at_start_open", "R04", "a quote is open at the very beginning of the line", "completing a word there doesn't close the quote",
 [("readline/readline/complete.c", "      (!orig_start || rl_line_buffer[orig_start-1] != quote_char))", "      (orig_start <= 1 || rl_line_buffer[orig_start-1] != quote_char))")], r"""
 rl_redisplay_function = nothing; using_history(); rl_line_buffer = 0; rl_extend_line_buffer(100); strcpy(rl_line_buffer, "\"ab"); rl_end = rl_point = 3; rl_completion_append_character = ' '; rl_lookup_match_type = 0; rl_override_match_append = 0; rl_filename_completion_desired = 0;
 char text[] = "ab"; __append_to_match(text, 1, 0, '"', 0); CHECK(!strcmp(rl_line_buffer, "\"ab\" "));""", RL + 'extern "C" { int __append_to_match(char*, int, int, int, int); typedef void v_(const char*); extern rl_compentry_func_t* x_; extern void (*rl_override_match_append)(const char*); } static void nothing() {}\n')
SEED("quoted_first_word_cut", "G01", "a suggestion for a line that begins with an open quote, accepted by full words", "the word ends at a space within the quotes",
 [("clink/lib/src/suggestions.cpp", "        if (m_endword_offset > 0)\n", "        if (m_endword_offset > 1)\n")], r"""
 rl_redisplay_function = nothing; using_history(); rl_line_buffer = 0; rl_extend_line_buffer(100); rl_line_buffer[0] = 0; static rl_buffer b; g_rl_buffer = &b; b.begin_line(); b.insert("\"a"); settings::find("autosuggest.inline")->set("true");
 static suggestion_manager m; suggestions s; s.set_line("\"a"); s.add("ab c\" d", 1, "history", -1, -1, "", -1); m.set("\"a", 1, &s); CHECK(m.insert(suggestion_action::insert_next_full_word)); CHECK(!strcmp(rl_line_buffer, "\"ab c\""));""", RL + '#include <vector>\n#include "core/settings.h"\n#include "line_buffer.h"\n#include "rl/rl_buffer.h"\n#include "line_state.h"\n#include "suggestions.h"\nextern line_buffer* g_rl_buffer; static void nothing() {}\n')
SEED("empty_line_cr", "F01", "an empty line that ends in CR LF", "the line isn't empty",
 [("clink/lib/src/errfile_reader.cpp", "    if (out.length() && out.c_str()[out.length() - 1] == '\\r')", "    if (out.length() > 1 && out.c_str()[out.length() - 1] == '\\r')")], r"""
 FILE* f = fopen("e.txt", "wb"); fputs("0\r\nC:\\x\r\n\r\n", f); fclose(f); errfile_reader r; CHECK(r.open("e.txt")); str<> s; CHECK(r.next(s)); CHECK(r.next(s) && s.equals("C:\\x")); CHECK(r.next(s)); CHECK(s.empty());""", '#include "lib/errfile_reader.h"\n')
