SETPRE = '#include "core/settings.h"\n#include <vector>\nstatic void wr(const char* f, const char* t) { FILE* o = fopen(f, "wb"); fputs(t, o); fclose(o); }\n'
SEED("load_keeps_stale", "C01", "an undeclared setting that another session removed from the file between two loads", "loading again keeps values that are no longer in the file, and the next save brings them back",
 [("clink/core/src/settings.cpp", "    load_custom_defaults(default_file);\n    get_loaded_map().clear();\n", "    load_custom_defaults(default_file);\n")], r'''
 wr("s.txt", "third.party = x\nother.one = 1\n"); settings::load("s.txt"); wr("s.txt", "other.one = 1\n"); settings::load("s.txt"); settings::save("s.txt"); char b[500] = {}; FILE* f = fopen("s.txt", "rb"); fread(b, 1, 499, f); fclose(f); CHECK(!strstr(b, "third.party"));''', SETPRE)
SEED("saved_flag_order", "C01", "a loaded value whose setting is declared afterwards and then cleared", "a cleared setting comes back from the file's original text",
 [("clink/core/src/settings.cpp", """        auto loaded = get_loaded_map().find(iter->get_name());
        if (loaded != get_loaded_map().end())
            loaded->second.saved = true;

        // Only write out settings that have been explicitly set.
        if (!iter->is_saveable())
            continue;
""", """
        // Only write out settings that have been explicitly set.
        if (!iter->is_saveable())
            continue;

        auto loaded = get_loaded_map().find(iter->get_name());
        if (loaded != get_loaded_map().end())
            loaded->second.saved = true;
""")], r'''
 wr("s.txt", "my.val = x\n"); settings::load("s.txt"); setting_str* s = new setting_str("my.val", "d", "", "dflt"); s->deferred_load(); s->set(); settings::save("s.txt"); settings::load("s.txt"); str<> v; s->get(v); CHECK(v.equals("dflt"));''', SETPRE)
SEED("sandbox_loaded_map", "C02", "a value for an undeclared setting that is only in memory, then an update of the file", "updating the file throws away in-memory values of undeclared settings",
 [("clink/core/src/settings.cpp", """    rollback<loaded_settings_map*> rb_loaded(g_loaded_settings, &tmp_loaded_map);

    // Load settings.
""", """
    // Load settings.
""")], r'''
 setting_str* s = new setting_str("my.val", "d", "", "dflt"); wr("s.txt", "third.party = x\n"); settings::load("s.txt");
 std::vector<settings::setting_name_value> o; o.emplace_back("third.party", "memory"); settings::overlay(o); settings::sandboxed_set_setting("my.val", "zz");
 settings::save("s.txt"); char b[500] = {}; FILE* f = fopen("s.txt", "rb"); fread(b, 1, 499, f); fclose(f); CHECK(strstr(b, "third.party = memory"));''', SETPRE)
SEED("color_rgb_default", "C03", "a 24 bit foreground together with a background", "the description of the colour gets a second foreground, which is rejected when read back",
 [("clink/core/src/settings.cpp", """            if (!parse24bit(parts, part, buf)) goto nope;
            out << buf << " ";
            any_fg = true;
""", """            if (!parse24bit(parts, part, buf)) goto nope;
            out << buf << " ";
""")], r'''
 str<> a, d, b; CHECK(settings::parse_color("#102030 on blue", a)); settings::format_color(a.c_str(), d, false); CHECK(settings::parse_color(d.c_str(), b)); CHECK(a.equals(b.c_str()));''', SETPRE)
SEED("linalloc_moved_from", "S04", "allocating from an allocator after it was moved from", "the moved-from allocator hands out memory at a null page",
 [("clink/core/src/linear_allocator.cpp", "    o.m_used = o.m_max;\n", "    o.m_used = sizeof(o.m_ptr);\n")], r'''
 linear_allocator a(64), b(64); a.alloc(10); b = static_cast<linear_allocator&&>(a); CHECK((size_t)a.alloc(8) > 4096);''', '#include "core/linear_allocator.h"')
SEED("utf16_pair_at_end", "S02", "a supplementary character that needs the last unit of a bounded buffer", "a half surrogate pair overruns the buffer's end",
 [("clink/core/src/str_convert.cpp", """        return *this << ((value >> 10) + 0xd7c0) << ((value & 0x3ff) + 0xdc00);

    if (!start)
        write++;
    else if (write < end)
        *write++ = wchar_t(value);
""", """        return *this << ((value >> 10) + 0xd7c0) << ((value & 0x3ff) + 0xdc00);

    if (!start)
        write++;
    else if (write <= end)
        *write++ = wchar_t(value);
""")], r'''
 wchar_t b[4] = { 1, 1, 1, 0x7777 }; str_iter i("a\xf0\x9f\x98\x80"); to_utf16(b, 3, i); CHECK(b[2] == 0 && b[3] == 0x7777);''', '#include "core/str_iter.h"')
SEED("cmp_sep_run_rhs", "M02", "a run of separators in only the second text", "texts that differ only in repeated separators compare as different depending on the order",
 [("clink/core/include/core/str_compare.h", """            while (path::is_separator(rhs.peek()))
                rhs.next();
        }
    }

    if (compute_lcd""", """            if (path::is_separator(rhs.peek()))
                rhs.next();
        }
    }

    if (compute_lcd""")], r'''
 CHECK(str_compare("a\\b", "a\\\\\\b") == -1); CHECK(str_compare("a\\\\\\b", "a\\b") == -1);''', '#include "core/str_compare.h"')
