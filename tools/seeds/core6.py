SEED("word_over_colour", "G02", "a word that is classified without overwriting where another class was given", "the later class replaces the first",
 [("clink/lib/src/word_classifications.cpp", "        if (overwrite || faces[start] == FACE_SPACE)", "        if (overwrite || m_faces[start] == FACE_SPACE)")], r'''
 static word_classifications c; c.init(3, 0, false); c.apply_face(true, 0, 2, 'c', true); c.apply_face(true, 1, 2, 'a', false); c.finish(); CHECK(c.get_face(0) == 'c'); CHECK(c.get_face(1) == 'c'); CHECK(c.get_face(2) == 'a');''', '#include <vector>\n#include "lib/word_classifications.h"\n')
SEED("desc_overflows_columns", "L01", "formatted descriptions, the last of which is what makes a layout too wide", "the columns don't fit the screen",
 [("clink/lib/src/column_widths.cpp", "                    info.line_len += b_len - arr.b_len;\n                    arr.b_len = b_len;\n                    info.valid_len = (info.line_len < line_length);", "                    info.line_len += b_len - arr.b_len;\n                    arr.b_len = b_len;")], r'''
 rl_redisplay_function = nothing; _rl_screenwidth = 80; matches_impl m; { match_builder b(m); match_desc x("a", "", "x   y", match_type::word), y("b", "", "1234567890   123456789012345678901234567890123456789012345678901234567", match_type::word); b.add_match(x); b.add_match(y); }
 m.done_building(); match_adapter a; a.set_matches(&m); a.init_has_descriptions(); column_widths c = calculate_columns(a, 0, false); int w = 0; for (int i = 0; i < (int)c.num_columns(); i++) w += c.column_width(i) + c.m_col_padding; printf("columns %d width %d\n", (int)c.num_columns(), w); CHECK(c.num_columns() == 1 || w < 80);''', '#include <vector>\nextern "C" {\n#include "readline/readline.h"\nextern int _rl_screenwidth;\n}\n#include "lib/matches.h"\n#include "matches_impl.h"\n#include "match_adapter.h"\n#include "column_widths.h"\nstatic void nothing() {}\n')
