SEED("linalloc_threshold", "S04", "an allocation of page size minus 1..7 bytes", "a block almost as large as a page is placed past the end of the page",
 [("clink/core/include/core/linear_allocator.h", "return size + sizeof(m_ptr) > m_max;", "return size >= m_max;")], r'''
 linear_allocator a(64); char* p = (char*)a.alloc(60); CHECK(p); CHECK(a.footprint() >= 8 + 60);''', '#include "core/linear_allocator.h"')
SEED("utf8_3byte_edge", "S02", "the code point U+0800, the first that needs three bytes", "U+0800 is encoded in two bytes",
 [("clink/core/src/str_convert.cpp", "n += c >= (1 << 11);", "n += c > (1 << 11);")], r'''
 str<> o; to_utf8(o, L"a\u0800b"); CHECK(strcmp(o.c_str(), "a\xe0\xa0\x80" "b") == 0);''')
SEED("str_concat_len", "S01", "a source shorter than the given count", "the cached length is too long, later appends leave a NUL inside the text",
 [("clink/core/include/core/str.h", """        while (remaining-- && *src)
            *(dst++) = *(src++);
        m_length = uint32(dst - m_data);
""", """        m_length = len + remaining;
        while (remaining-- && *src)
            *(dst++) = *(src++);
        *dst = '\\0';
""")], r'''
 char buf[10] = {'x'}; str<16> s("ab"); s << buf; s.concat("cd", 2); CHECK(strcmp(s.c_str(), "abxcd") == 0); CHECK(s.length() == 5);''')
SEED("tok_delim_first", "S03", "a run of two different delimiters between tokens", "the reported delimiter is not the one right before the token",
 [("clink/core/src/str_tokeniser.cpp", "        delim = *candidate;", "        if (!delim)\n            delim = *candidate;")], r'''
 str_tokeniser t("a ,b", " ,"); str<> o; t.next(o); str_token k = t.next(o); CHECK(o.equals("b")); CHECK((char)k.delim == ',');''', '#include "core/str_tokeniser.h"')
SEED("wild_tail_cross", "M01", "at_end mode, a star followed by more pattern, backtracking across a separator", "stars cross directories although only a final star may",
 [("clink/core/include/core/match_wild.h", "if (match_everything != yes && path::is_separator(d))", "if (match_everything == no && path::is_separator(d))")], r'''
 CHECK(!path::match_wild("*a*b", "xa/ab", false, path::at_end) || 0); CHECK(!path::match_wild("*/a", "x/b/a", false, path::at_end));''', '#include "core/path.h"\n#include "core/match_wild.h"')
