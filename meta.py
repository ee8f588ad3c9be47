"""What each property says, and where it is anchored (tools/gen.py writes properties.jsonl and MANIFEST.json from this)."""
META = {}
def M(id, title, statement, over, qtext, why, files, mech, **k): META[id] = dict(title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files.split(), mech=mech, **k)
C = "clink/core/src/"; L = "clink/lib/src/"; T = "clink/terminal/src/"

M("P01", "Path normalisation never changes which file a path names",
  "Normalising any path (relative, drive-relative, absolute, UNC, or in the \\\\?\\ and \\\\.\\ namespaces) gives the path made by splitting it into elements, dropping empty and '.' elements, and letting each '..' remove the element before it (never the root), joined with single requested separators. Elements keep their text and order, a trailing separator is kept, normalising again changes nothing, and no memory outside the text is touched.",
  "inputs", "every path text, for each kind of root and both separators", "Tests sample about forty paths; which dots, separators and roots meet, and in what order, is a product no table covers.",
  C+"path.cpp clink/core/include/core/path.h", [("normalise_impl", C+"path.cpp"), ("past_unc, past_ssqs", C+"path.cpp")])
M("P02", "Splitting a path and joining it again gives back the path",
  "For every path, its directory part and its name part are a split of the text at its last separator or root end, its name, extension and root queries agree with that split, and removing the last separator or going to the parent removes exactly that. Appending a name to a directory gives the directory, exactly one separator where one is needed, and the name; a rooted name replaces the directory, and no query reads or changes anything else.",
  "inputs", "every path text, for each kind of root", "Tests look at fixed examples of each query; they don't relate the queries to each other, and roots, repeated separators, dots and drive prefixes combine freely.",
  C+"path.cpp clink/core/include/core/path.h", [("get_last_separator, get_directory, get_name, get_extension, get_root", C+"path.cpp"), ("append, to_parent, maybe_strip_last_separator, is_rooted, is_root", C+"path.cpp")])
M("S01", "String edits behave like edits of an unbounded character sequence",
  "Copying, concatenating (whole or part), truncating, trimming, formatting, reserving, searching and moving strings give the same text as the same edits on a plain character sequence, whether the string lives in its built-in buffer or has outgrown it. The reported length always matches the text, the text stays terminated, a growable string never loses characters, a fixed one is cut off at its capacity and says so, and nothing outside the buffer is written.",
  "inputs histories", "every sequence of edits and every text, around the point where the built-in buffer is outgrown", "Tests run a few fixed edits; length caching, growing and ownership depend on the order of edits and on lengths at the boundary.",
  C+"str.cpp clink/core/include/core/str.h", [("str_impl: copy, concat, truncate, trim, format, reserve, move", "clink/core/include/core/str.h")])
M("S02", "UTF-8 and UTF-16 conversions are inverse and total",
  "Converting any well formed text from UTF-8 to UTF-16 and back, or the other way, gives the same text; every code point is encoded as Unicode defines and malformed input gives replacement characters, never an out of range code point. Conversion into a bounded buffer writes a terminated prefix and never beyond the buffer, and counting or iterating code points agrees with converting them.",
  "inputs", "every byte sequence and every UTF-16 sequence, well formed or not, and every buffer size", "Tests convert a few literals; malformed and cut off sequences, surrogates and buffer limits need the whole code space.",
  C+"str_convert.cpp "+C+"str_iter.cpp clink/core/include/core/str_iter.h", [("to_utf8, to_utf16, wstr_converter", C+"str_convert.cpp"), ("str_iter_impl::next", C+"str_iter.cpp")])
M("S03", "The tokeniser cuts a text into its tokens and loses nothing",
  "Splitting a text at delimiters gives, in order, the longest runs of characters that contain no delimiter outside quotes; each is reported with its place, its length and the delimiter before it, and the end is reported once the text is used up. Removing quotes from a text removes exactly its quote characters.",
  "inputs", "every text over delimiters, quotes (same and paired), and other characters", "Tests split a few strings; quotes that are nested, unbalanced or next to delimiters are combinatorial.",
  C+"str_tokeniser.cpp clink/core/include/core/str_tokeniser.h", [("str_tokeniser_impl::next_impl, peek_delims", C+"str_tokeniser.cpp"), ("concat_strip_quotes", "clink/core/include/core/str.h")])
M("S04", "Memory blocks handed out from an arena never overlap",
  "Every block given out by the arena allocator lies in memory it owns, doesn't overlap any other live block, and keeps its content while other blocks are allocated, whatever the sizes and whatever resets, clears and moves happened before. Stored strings are exact copies, and a moved-from allocator can be used again.",
  "histories inputs", "every sequence of allocations of any size, stores, resets, clears and moves", "Tests use it indirectly with small blocks; page ends, oversized blocks and reuse after reset depend on the sizes and order.",
  C+"linear_allocator.cpp clink/core/include/core/linear_allocator.h", [("alloc, new_page, reset, clear, operator=", C+"linear_allocator.cpp")])
M("M01", "Wildcard matching finds exactly what the pattern describes",
  "A wildcard pattern matches a path exactly when '?' can stand for one character that is not a separator (or nothing at the end of an element), '*' for any run of them, either slash for runs of either slash, and other characters for themselves under the active comparison mode. In the modes where stars may cross directories, they do so exactly where the mode allows.",
  "inputs configurations", "every pattern and path up to ten stars, in each star mode and comparison mode", "Tests have a table of patterns; backtracking depends on how pattern and text overlap.",
  "clink/core/include/core/match_wild.h "+C+"path.cpp", [("match_wild", "clink/core/include/core/match_wild.h")])
M("M02", "String comparison modes are consistent and find the first difference",
  "Comparing two texts reports that they are equal exactly when they are equal under the active mode (exact, caseless, or relaxed, with or without accent folding), and otherwise the position of the first differing character. It is symmetric, a text always equals itself, slashes are interchangeable, and the report for one pair agrees between narrow and wide text.",
  "inputs configurations", "every pair of texts and every mode", "Tests compare a few words; the mode table and the prefix result have to agree for every pair.",
  C+"str_compare.cpp clink/core/include/core/str_compare.h", [("str_compare_impl", "clink/core/include/core/str_compare.h"), ("normalize_accent", C+"str_compare.cpp")])
M("C01", "Saving and loading settings preserves every value",
  "A value accepted for a setting of any type reads back the same after saving and loading the settings file, and a rejected value changes nothing. Settings that no loaded script declares keep their values and comments across any sequence of loads, saves, declarations and changes; cleared settings take their default (a custom default where one is configured), and files of any size load without memory errors. Theme files give exactly their entries, in order and by section.",
  "inputs histories", "every setting type and value text, and every sequence of load, save, declare, undeclare and change", "Tests set a few values in memory; none saves and loads, and undeclared settings, custom defaults and file syntax are untested.",
  C+"settings.cpp clink/core/include/core/settings.h", [("load_internal, save_internal, set_setting, load_custom_defaults, parse_ini", C+"settings.cpp"), ("setting_impl::parse, get, setting_enum, setting_color", C+"settings.cpp")], state=[("loaded settings map", "values read from the file for settings that no script declares", C+"settings.cpp")])
M("C02", "Updating the settings file changes only what was asked for",
  "Updating one setting (or several, or clearing one) in the settings file from a session changes exactly these in the file: other stored values stay, values that were only changed in memory are not written, and every in-memory value is the same afterwards. The update is refused exactly when the value is not valid for the setting.",
  "inputs histories configurations", "every setting type, value, update kind and in-memory state", "No test updates the settings file from a session.",
  C+"settings.cpp clink/lua/src/settings_api.cpp", [("sandboxed_set_setting, sandboxed_overlay, rollback_settings_values", C+"settings.cpp")])
M("C03", "Colour settings mean what their words say",
  "A colour description made of attribute words, colour names (with 'bright'), 24 bit colours and 'on' is turned into an escape sequence that has exactly the described effect, or is rejected without any effect when it is contradictory. Describing a stored colour in words gives a description with the same effect, in the compatible form also without 24 bit colours.",
  "inputs", "every combination of colour words up to the bound, and every 24 bit colour over the digits used", "Tests have a list of colours; the combinations and their order are a product.",
  C+"settings.cpp", [("parse_color, format_color", C+"settings.cpp")])
M("T01", "Escape codes are found exactly, in one piece or many",
  "Reading a text gives its codes in order: runs of text, control characters, and escape codes as ECMA-48 and xterm define them (CSI, and strings ended by BEL or ST that may hold nested OSC codes), each with exactly its text; CSI parameters, private marks and final characters are the ones written. Handing over the text in several pieces gives the same codes, malformed codes never swallow well formed text before them, and texts of any length keep their length.",
  "inputs histories", "every text over the characters that steer the parser, and every point where it is cut in two", "Tests parse a dozen strings; where a text is cut in two, what follows an unfinished code, and nesting are combinatorial.",
  T+"ecma48_iter.cpp clink/terminal/include/terminal/ecma48_iter.h", [("ecma48_iter::next and its state functions", T+"ecma48_iter.cpp"), ("decode_csi", T+"ecma48_iter.cpp")], state=[("ecma48_state", "parser state and partial code kept between pieces of text", T+"ecma48_iter.cpp")])
M("T02", "Processing a prompt keeps everything visible",
  "Processing text with escape codes keeps the text: unchanged without options; only the visible text in plain mode; with every invisible code and nothing else enclosed in brackets in bracket mode, so that the reported width is the same in each; and in colourless mode the same text with the same underline, italic and strike at each character but no colour.",
  "inputs configurations", "every text over the characters that steer the parser, every list of SGR parameters, in each mode", "Tests cover a few strings; the modes have to agree for each text, and SGR lists combine freely.",
  T+"ecma48_iter.cpp", [("ecma48_processor", T+"ecma48_iter.cpp")])
HD = L+"history_db.cpp"
M("H01", "Command history keeps exactly the lines that weren't removed, in order",
  "Whatever sessions do (adding lines, removing them by text or by number, loading, clearing, ending normally, or being killed), each session sees the master lines it loaded, without those it removed, followed by its own lines in order; with shared history all see the same. When a session ends or is found dead, exactly its remaining lines are appended and exactly the lines it removed disappear, once. Duplicates follow the duplicate mode, and times stay with their lines.",
  "histories inputs configurations", "every sequence of operations on two sessions of any lines, per sharing and duplicate mode", "Tests run a few fixed scripts; removals are offsets that must stay with the right file version across sessions, clears and dead sessions.",
  HD+" clink/lib/include/lib/history_db.h", [("add, remove, find, clear, load_internal, reap, initialise", HD), ("line_iter, for_each_removal, write_lock", HD)], state=[("master file, session file, removals file, alive file", "lines per bank, deferred removals as offsets under a version tag, and whether the session lives", HD)])
M("H02", "Compacting the history loses no line that should stay",
  "Compacting or limiting the history keeps exactly the newest lines up to the limit (all of them without one; only the last of equal lines when asked for unique lines), in order and with their times. Removals that other sessions have pending still hit the same lines afterwards, and numbers from before are refused instead of hitting other lines.",
  "histories inputs configurations", "every sequence of operations with a compaction at any point, any limit, unique or not", "Tests compact once with fixed lines; limits, duplicates, deleted lines and pending removals of other sessions interact.",
  HD, [("compact, rewrite_master_bank", HD), ("load_rl_history", HD)], state=[("concurrency tag", "version of the master file that offsets belong to", HD)])
M("H03", "A session that dies while writing damages no other history line",
  "If a process ends between any two writes that add a line, or the history file ends without a newline, every other line is still read exactly, and lines added later by any session are kept whole; the interrupted line is there, cut off, or missing.",
  "crash-points histories inputs", "every point between the writes of adding a line, followed by every sequence of operations", "No test interrupts a write or reads a file without a last newline.",
  HD, [("write_lock::add, append", HD), ("line_iter::next", HD)])
M("D01", "Doskey macros expand as documented",
  "A line whose first word is a macro's name expands to the macro's text, with $1 to $9 and $* replaced by the words after it, $G $L $B $T $$ by the characters they stand for, and the rest kept; lines without a macro stay as they are. In enhanced mode this also holds for each command after a separator, quoted words are kept together, and other commands and separators are kept. Lines of a macro come out in order, arguments may have any length, and the cursor stays within the line.",
  "inputs configurations", "every line and macro text over the characters that matter, in enhanced and plain mode", "Tests expand a few fixed macros; separators, quotes, tags and the cursor combine freely.",
  L+"doskey.cpp", [("doskey::resolve, resolve_impl", L+"doskey.cpp"), ("get_alias, find_command_end", L+"doskey.cpp"), ("doskey_alias::next", L+"doskey.cpp")])
M("Q01", "Queued input comes out once, whole and in order",
  "Lines queued behind the current input (pasted lines, in any number of pieces) and lines put in front of it (of macros and scripts) are handed out in that order, each exactly once, whether they are taken as lines or character by character or in any mix, with any characters. A line without its line end is continued by the text queued next, and offered for editing when it is the last; how lines are shown stays with each line.",
  "histories inputs", "every sequence of queueing, taking and clearing, of any lines", "No test covers the queue; it depends on the order of queueing at both ends and on partly taken lines.",
  L+"line_queue.cpp", [("enqueue_back, enqueue_front, dequeue_line, dequeue_char", L+"line_queue.cpp")], state=[("queue of lines", "lines with their flags, and how much of the first one was taken as characters", L+"line_queue.cpp")])
M("E01", "Expanding environment variables replaces exactly the variables",
  "In any text, each %name% of a variable that is set (in any case) is replaced by its value, from left to right and once, and everything else stays, including unknown names and single percent signs. A cursor position stays with the text it was at; inside a replaced name it moves to the end of the value. Whether anything was expanded is reported, and only the given part of the text is read.",
  "inputs", "every text over percent signs and names, every cursor position, any set of variables and values", "No test expands variables with a cursor; several variables with values of other lengths than their names are needed.",
  C+"os.cpp", [("os::expand_env, os::get_env", C+"os.cpp")])
M("I01", "Directory shortcuts are recognised exactly",
  "An input line that is one word naming an existing directory and ending in a separator (after removing quotes and carets and expanding variables and ~), or that is dots (... is ..\\..) or a path of .. elements, becomes the cd command for that directory, with the drive when it differs; '-', 'cd -' and 'chdir -' (also with /d) mean the previous directory. Every other line is left alone, commands and macros that look alike included. The same holds for lines taken from the queue of pending lines, except those offered for editing.",
  "inputs configurations", "every line over the characters that matter, in each mode", "No test covers shortcuts; quotes, carets, dots, drives and commands combine freely.",
  L+"intercept.cpp clink/app/src/host/host.cpp", [("intercept_directory, parse_line_token, is_cd_dash, make_cd_command", L+"intercept.cpp"), ("host::dequeue_line", "clink/app/src/host/host.cpp")])
M("T03", "Text takes the number of cells its characters take",
  "Every code point's width is the one Unicode gives it (control characters none of their own, marks, wide and half width characters), with and without colour emoji. A text is split into characters that cover it exactly, each with its width: joined and modified emoji, flags and variation selectors count as one character of two cells. Stepping back and forth gives the same characters, and the width of a text is the sum over them.",
  "inputs configurations", "every code point; every text of code points of each kind, with and without emoji", "Tests have a few strings; the width tables have hundreds of borders, and sequences combine freely.",
  T+"wcwidth.cpp "+T+"wcwidth_iter.cpp", [("wcwidth (mk_wcwidth, bisearch)", T+"wcwidth.cpp"), ("wcwidth_iter::next, consume_emoji_sequence, unnext", T+"wcwidth_iter.cpp")])
M("T04", "Text cut to a width keeps as much as fits and says how wide it is",
  "Text that fits a limit of cells is returned as it is. Longer text keeps the longest beginning (or end, or drive and end) that fits along with the ellipsis, cut between whole characters, with the ellipsis in place of the rest, itself cut if it doesn't fit; the escape codes around what is kept stay in order. The reported width is the width of the result and never beyond the limit, and whether anything was cut is reported.",
  "inputs", "every text of characters of each width and escape codes, every limit and several ellipses, in each mode", "Tests have a table; wide characters at the border, codes between characters and long ellipses combine freely.",
  L+"ellipsify.cpp", [("ellipsify, ellipsify_ex", L+"ellipsify.cpp")])
M("W01", "Input lines are split into commands and words as CMD reads them",
  "A line is split into commands at & && | and || outside quotes unless escaped with ^ or part of a redirection, and each command into words at spaces, tabs, commas, semicolons and equal signs. Quoted and escaped characters never split, arguments of redirections are marked, flags end at their colon, built in commands end where special characters begin. Commands and words are in order, don't overlap, and only separators lie between them; for completion the words end at the cursor and text behind the cursor doesn't matter.",
  "inputs configurations", "every line over the characters that matter with every cursor position, and every line made of known parts", "Tests have eight lines; separators, quotes, carets, redirections, parentheses, rem and macros combine freely.",
  L+"word_collector.cpp "+L+"cmd_tokenisers.cpp", [("word_collector::collect_words, command_line_states::set", L+"word_collector.cpp"), ("cmd_command_tokeniser::next, cmd_word_tokeniser::next, cmd_state::test", L+"cmd_tokenisers.cpp")])
M("A01", "Installing and uninstalling autorun touches only Clink's own entry",
  "'clink autorun uninstall' removes Clink's entry from the commands that CMD runs at its start (quoted or not, with any arguments, at any place) and leaves every other command as it is, and values without an entry unchanged. 'clink autorun install' keeps all other commands and makes exactly one entry at the end, however often it is run, with its arguments whatever their length and characters, so that they arrive as given. Uninstalling afterwards restores the commands; the same for all users.",
  "inputs histories configurations", "every pair of texts of other commands over quotes, ampersands and spaces, each kind of entry, any arguments", "No test covers autorun: it edits a registry value that also holds the commands of others.",
  "clink/app/src/loader/autorun.cpp", [("find_clink_entry, uninstall_autorun_from_key, install_autorun", "clink/app/src/loader/autorun.cpp"), ("safe_append_quoted, autorun", "clink/app/src/loader/autorun.cpp")], state=[("AutoRun registry value", "commands that CMD runs at its start, Clink's among them", "clink/app/src/loader/autorun.cpp")])
M("B01", "Keys reach the binding of the chord that was typed",
  "A chord bound in a group (in the notation with \\M- \\C- ^ \\e and so on, or plain) is reached by typing exactly its keys: the module and id that were bound, the keys of the chord, and the numbers in them. Several bindings of a chord are offered in order while modules pass; longer chords go before shorter ones and the catch-all of the group is last and gets one key at a time. Keys behind a claimed binding are kept and resolved next, in the group set meanwhile. No key is lost or delivered twice. A key sequence counts as bound only if it is a chord or a catch-all takes it.",
  "inputs histories", "every set of few chords, every key sequence and every pattern of passing, claiming and switching groups within the bounds; every chord text", "Tests bind single chords and type them; overlapping chords, passing and leftovers combine freely.",
  L+"binder.cpp "+L+"bind_resolver.cpp", [("binder::bind, binder::is_bound, translate_chord", L+"binder.cpp"), ("bind_resolver::step, bind_resolver::next, bind_resolver::binding::claim", L+"bind_resolver.cpp")], state=[("bind_resolver keys and node", "keys typed and not yet taken", L+"bind_resolver.cpp")])
M("K01", "The matches offered are exactly those that fit what was typed",
  "Of all matches that were collected, exactly those are offered that the typed word selects (as prefix, as wildcard pattern where * and ? are used or implied, or anywhere in the match when substring matching applies because no prefix does), each once, whatever is typed next; hidden files, other users' types and duplicates follow the settings. Sorting orders them but never drops or doubles one. Types, display texts, descriptions and append characters stay with their match when it is copied, moved between lists or filtered. Slashes are translated as configured, and directories get their trailing separator exactly once. Iterating visits exactly the matches that are counted.",
  "inputs histories configurations", "every few matches of every type, every typed word and sequence of words, each sort order, slash translation and filter within the bounds", "Tests use fixed file systems and a few needles; selection, sort, duplicates, types and repeated narrowing interact.",
  L+"matches_impl.cpp "+L+"match_pipeline.cpp", [("matches_impl::done_building, add_match, matches_iter::next", L+"matches_impl.cpp"), ("match_pipeline::select, sort, restrict", L+"match_pipeline.cpp"), ("slash translation", L+"slash_translation.cpp")], state=[("matches_impl infos", "the collected matches, their select marks and count", L+"matches_impl.cpp")])
M("X01", "The emulated terminal shows what its control sequences say",
  "Where Clink itself processes control sequences, text and sequences leave on the screen what terminals show for them: the cursor moves, is saved and restored within bounds, erasing and inserting or deleting characters change exactly their cells, whatever the parameters. Colours, bold, underline and reverse last until changed and mean the same in one sequence or several, 256 and 24 bit colours included; at the end the console's own attributes are back. Characters written a byte at a time arrive whole, and invalid bytes neither damage anything nor swallow the characters after them. Window titles arrive as given.",
  "inputs histories", "every operation from every cursor position, sequences of operations, every colour code and parameter, every sequence of bytes within the bounds", "No test covers the emulation: parameters, positions, attributes and partial characters combine freely.",
  "clink/terminal/src/ecma48_terminal_out.cpp clink/terminal/src/win_screen_buffer.cpp clink/terminal/src/attributes.cpp", [("ecma48_terminal_out::write, write_c1, write_c0, set_attributes, build_pending", "clink/terminal/src/ecma48_terminal_out.cpp"), ("win_screen_buffer: clear, clear_line, move_cursor, insert_chars, delete_chars, set_attributes", "clink/terminal/src/win_screen_buffer.cpp")], state=[("console screen buffer", "cells, cursor, window and attributes", "clink/terminal/src/win_screen_buffer.cpp")])
M("X02", "Reading and searching the screen finds exactly what is shown",
  "The text of a line of the screen is what its cells show without trailing spaces; a line has default colours exactly if all cells have. Searching up or down from a line finds the first line that has the text (in its case or ignoring case), with one of the wanted colours within the text, or anywhere in the line if no text is wanted, comparing all or only the foreground or background part; nothing is found outside of the range or the screen.",
  "inputs", "every small screen, text, colours, start, direction and distance within the bounds", "No test reads or searches a screen.",
  "clink/terminal/src/find_line.cpp clink/terminal/src/win_screen_buffer.cpp", [("find_line", "clink/terminal/src/find_line.cpp"), ("win_screen_buffer::get_line_text, is_line_default_color, line_has_color, find_line", "clink/terminal/src/win_screen_buffer.cpp")])
M("M03", "A shell pattern matches exactly the names it describes",
  "A pattern given to the glob matcher that decides which names a completion or a lookup takes (`?`, `*`, `**`, sets with ranges, negation and classes, escapes) matches a name exactly if the documented language of the pattern has that name, for every combination of the options (separators are not matched by wildcards, leading periods must be written, case is ignored, separators are equal, no escapes, leading directories are enough). Matching ends and reads nothing outside of the pattern and the name.",
  "inputs", "every pattern and name within the bounds, under every choice of options", "The tests of the matcher are a fixed table of pairs, most of them without options.",
  "wildmatch/wildmatch/wildmatch.c", [("wildmatch", "wildmatch/wildmatch/wildmatch.c")])
M("R01", "An editing command changes the line as it says, and undo takes it back",
  "Each editing command (moving, deleting and killing by character, word and line, transposing, changing case, yanking, the region commands) with each numeric argument changes the text and the cursor as documented, on every line. Consecutive kills gather in order into one entry of the kill ring, which yank and yank-pop return. Undoing takes the changes back one command at a time until the line is what it was before the first one. The line always ends where its length says and the buffer is never overrun.",
  "histories", "every line, cursor, sequence of commands and arguments within the bounds", "Tests drive single commands on fixed lines through a terminal; kill ring and undo are not tested.",
  "readline/readline/kill.c readline/readline/text.c readline/readline/undo.c", [("rl_kill_text, rl_kill_word, rl_yank, rl_yank_pop, region_kill_internal", "readline/readline/kill.c"), ("rl_insert_text, rl_delete_text, rl_transpose_words, rl_change_case", "readline/readline/text.c"), ("rl_do_undo", "readline/readline/undo.c")])
M("R02", "Going through the history keeps every edit and its undo",
  "Moving through the history shows the lines of the history, and coming back to the end shows the line that was being typed, as it was left. Edits to a line stay with that line while moving to others; undo and revert-line take back the edits of the line that is shown, to nothing but its own earlier texts, however often one leaves and returns and also when there is no line to move to. Accepting a line puts the edited history line back (all of them with revert-all-at-newline), adding and removing lines of the history leave the others and the line being typed alone, and no undo record outlives its line or is used by two.",
  "histories", "every sequence of commands within the bounds over small histories with any characters", "No test edits history lines; undo lists are shared between the line, the history and the saved line.",
  "readline/readline/misc.c readline/readline/undo.c clink/lib/src/rl/rl_buffer.cpp", [("rl_get_previous_history, rl_get_next_history, _rl_maybe_replace_line, _rl_revert_previous_lines, rl_add_history, rl_remove_history", "readline/readline/misc.c"), ("rl_do_undo, rl_free_undo_list", "readline/readline/undo.c"), ("readline_common_teardown", "readline/readline/readline.c"), ("rl_buffer::reset", "clink/lib/src/rl/rl_buffer.cpp")], state=[("rl_undo_list, HIST_ENTRY.data, _rl_saved_line_for_history", "undo records of the line, of history lines and of the line that was typed", "readline/readline/undo.c")])
M("T05", "Console keys, text and mouse events become their documented sequences",
  "Every key of the documented table of special keys (cursor, editing and function keys, Tab, Space, Backspace, Enter, Esc, Ctrl with letters and symbols) yields the sequence documented for it under every combination of Shift, Ctrl, Alt and AltGr, whatever the state of the lock keys, and as the settings for Esc, differentiated keys, AltGr substitutes, Alt+F4 and the default bindings say. Text from any layout, input method or Alt code comes through as its UTF-8, characters beyond U+FFFF included. Mouse clicks, drags and wheels come through with position and kind for those who accept them. Released keys, lone modifiers and other events yield nothing. What is read is neither lost, doubled nor reordered by having looked for input before, by several events being queued, by keys that are discarded as unbound or are translated, or by a terminal request, which finds its answer (CSI or OSC) between typed input and takes exactly it away.",
  "histories", "every queue of input records within the bounds, under every choice of settings, looked at or not", "No test sends console input records; tests replace this class.",
  "clink/terminal/src/win_terminal_in.cpp", [("win_terminal_in::process_input, push, filter_unbound_input, peek_record, process_record, read_console, available, peek, read, send_terminal_request", "clink/terminal/src/win_terminal_in.cpp"), ("terminfo tables", "clink/terminal/src/win_terminal_in.cpp")], state=[("m_buffer, m_pending_records, m_lead_surrogate, m_prev_mouse_button_state", "input that was seen and is not yet read", "clink/terminal/src/win_terminal_in.h")])
M("I02", "A line of an inputrc file does what it says",
  "A key binding of an inputrc file binds exactly the keys its key sequence (with all escapes, \\C- and \\M- prefixes) or key name (with prefixes, in any case) denotes, to the command or to the macro with exactly the keys that are written, and nothing else. After any series of bindings and unbindings each sequence does what it was bound to last, also when one is the beginning of another, and keys written out read back as the same keys. `set` gives a variable the documented value for every text, and reading the variable gives it back. Between `$if`, `$else` and `$endif`, nested in any way, exactly the lines are done whose conditions (mode, term, application, version, clink_version, variables, with each operator) all hold. No line, however malformed, is read or written outside of its text.",
  "inputs", "every line within the bounds over the given characters; every sequence of lines and of bindings within the bounds", "Tests read a few fixed bindings through the editor; conditionals, variables and malformed lines are not tested.",
  "readline/readline/bind.c readline/readline/keymaps.c", [("rl_parse_and_bind, rl_translate_keyseq, rl_generic_bind, rl_macro_bind, rl_function_of_keyseq_len, parser_if, parser_else, parser_endif, rl_variable_bind, rl_variable_value, _rl_untranslate_macro_value", "readline/readline/bind.c"), ("rl_make_bare_keymap, rl_empty_keymap, rl_discard_keymap", "readline/readline/keymaps.c")], state=[("keymaps, if_stack", "bindings and open conditions", "readline/readline/bind.c")])
M("A02", "Installing and removing script paths keeps the list exactly",
  "`clink installscripts` adds a path to the list of script paths exactly once, at the end and without changing the others, and refuses a path that is there already (in any case and with either kind of slash). `clink uninstallscripts` takes exactly the given path away, or says that it is not there; with `--all` it removes every path and names each one. `--list` names each path of the list once and changes nothing. A second path, no path, or a path where none may be given changes nothing. Installing and uninstalling again gives the list back.",
  "inputs histories", "every list and path within the bounds", "No test runs these commands; they need a registry.",
  "clink/app/src/loader/installscripts.cpp", [("change_value, installscripts, uninstallscripts", "clink/app/src/loader/installscripts.cpp"), ("str_tokeniser", "clink/core/src/str_tokeniser.cpp")], state=[("registry value InstalledScripts", "the list of script paths", "clink/app/src/loader/installscripts.cpp")])
M("V01", "What is on the screen is the prompt and the line that is edited",
  "After each redisplay the terminal shows the last line of the prompt followed by the text of the line, wrapped at the width of the terminal, with each character in its place and in its face, control characters as ^X, wide characters never split, accents with their letters, and the cursor where the editing position is; nothing else remains from what was there before. This holds whichever part of the old display was updated, with prompts of several lines or that wrap, at the bottom of the screen where it scrolls, and whatever the changes were. If only some rows are allowed, the rows shown are those of the line around the cursor and markers say that there is more; in one row the part around the cursor is shown likewise. The right prompt and the hint below are there exactly if there is room, and leave with what they belong to. At the end the cursor is below all of it.",
  "histories", "every line, cursor, change and series of changes within the bounds", "No test looks at a screen: tests replace the printer and do not display lines.",
  "clink/lib/src/display_readline.cpp", [("display_lines::parse, horz_parse, apply_scroll_markers, adjust_columns; display_manager::display, update_line, move_to_column, move_to_row, end_prompt_lf", "clink/lib/src/display_readline.cpp"), ("wcwidth_iter, ecma48_wrapper", "clink/terminal/src/ecma48_iter.cpp")], state=[("display_manager m_curr, m_last_prompt_line_*, m_pending_wrap, m_top, m_horz_scroll", "what was displayed last and where the cursor is", "clink/lib/src/display_readline.cpp")])
M("E02", "History expansion puts in what its designators say",
  "In a typed line, event designators (`!!`, `!n`, `!-n`, `!str`, `!?str?`, `!#`) stand for the line of the history they name, word designators (`n`, `^`, `$`, `*`, `x-y`, `-y`, `x*`, `x-`, `%`) for exactly those words of it, joined by single spaces, and modifiers (h, t, r, e, p, s, g/a, G, &) change them as documented: substitution of the first, of every occurrence, or once in each word, with `&` and quoted delimiters, one after another; `^old^new^` is the same for the previous line. Words are split as a shell does, with operators, redirections and quoted strings. Everything else in the line stays as it is; `!` before a blank, `=` or the end, or inside of quotes that the setting protects, is not expanded. A designator for an event, word or text that is not there refuses the line and leaves it untouched. The listed expansions cover exactly the designators. No typed line makes it read outside of the line.",
  "inputs", "every history line, designator, replacement and surrounding text within the bounds", "Tests expand a few fixed lines with `!!` and `!$`-like designators; ranges, modifiers and word splitting are hardly tested.",
  "readline/readline/histexpand.c clink/lib/src/history_db.cpp", [("history_expand, history_expand_internal, get_history_event, get_history_word_specifier, history_arg_extract, history_tokenize, get_subst_pattern, postproc_subst_rhs", "readline/readline/histexpand.c"), ("history_db::expand, history_expand_control", "clink/lib/src/history_db.cpp")])
M("R03", "Searching the history shows the nearest line that matches",
  "The history search commands show, from where one is and in the direction asked for, the nearest line of the history that begins with (or contains) what is between the start of the line and the cursor; going on looks for the same text, not showing one text twice in a row; the cursor is at what was found. Incremental search shows the nearest line containing what has been typed so far, going on from what is shown when characters are added or removed, the search is repeated, the direction is switched or the last search is recalled; when nothing matches, the bell rings and what is shown stays; giving up brings back line and cursor, accepting goes to the line found. Lines, their edits and their undo stay as they were, and the cursor stays inside of the line.",
  "histories", "every sequence of commands and keys within the bounds over small histories with any characters", "No test searches the history.",
  "readline/readline/search.c readline/readline/isearch.c readline/readline/histsearch.c", [("rl_history_search_backward, rl_history_search_forward, rl_history_substr_search_backward, rl_history_substr_search_forward, rl_history_search_internal, noninc_search_from_pos", "readline/readline/search.c"), ("rl_reverse_search_history, _rl_isearch_init, _rl_isearch_dispatch, _rl_isearch_fini", "readline/readline/isearch.c"), ("history_search_internal", "readline/readline/histsearch.c")], state=[("_rl_search_cxt", "string, direction, line and place of an incremental search", "readline/readline/rlprivate.h")])
M("R04", "Completing puts the right text, quoted as needed, in place of the word",
  "Completing a word replaces exactly that word, nothing before or behind it: with one match by that match, with several by what they have in common (under the case rules in force: characters that only differ in case, and - and _ when those count as the same, are common; what was typed keeps its spelling when a match has it). The text is put in quotes exactly when it (or what must follow what the matches have in common) has a character that needs them and no quote is open. A single match at the end of the line gets the closing quote, if one is open, and a space, but a directory gets neither, and keeps its separator only when directories are to be marked. Inserting all matches puts each in, quoted where needed. The menu completion commands put in the next or previous match in turn, around through what was typed or the common part. Without a match the line stays and the bell rings. The cursor ends up behind what was put in, and undo gives back the line as it was.",
  "words, matches", "every set of matches within the bounds, with letters, spaces and special characters, in every kind of place", "No test inserts a completion with several matches, quotes and text behind it for every combination.",
  "readline/readline/complete.c", [("rl_complete_internal, insert_match, make_quoted_replacement, append_to_match, insert_all_matches, compute_lcd_of_matches, postprocess_matches", "readline/readline/complete.c"), ("rl_old_menu_complete, rl_menu_complete, advance_match_list_index", "readline/readline/complete.c")], state=[("rl_line_buffer, rl_point, rl_undo_list", "the line, the cursor and what undo knows", "readline/readline/readline.c")])
M("G01", "A suggestion shown goes on from the line, and accepting it inserts just that",
  "A suggestion is shown exactly when it begins with what is in the line from the place it applies to (ignoring case only when configured so); then the line as typed is followed by the rest of the suggestion. Accepting it at the end of the line inserts the whole rest; accepting the next word inserts up to where moving forward by a word would get, accepting the next full word up to the next space outside of quotes. With original capitalization on, what was typed of the suggested part takes the suggestion's spelling: from the end word on, or the whole line when all of a suggestion for the whole line is accepted; off, what was typed stays. A suggestion accepted in part goes on being shown, and accepting on gets to all of it. When the suggestion does not match what is in the line now (also when the line has changed since it was made), or the cursor is not at the end, accepting does nothing. The cursor ends up at the end of the line, and undo takes back one accepted part at a time.",
  "lines, suggestions", "every line and suggestion within the bounds, any place, and every sequence of accepting commands", "No test accepts suggestions in the line.",
  "clink/lib/src/suggestions.cpp", [("suggestion_manager::set, suggestion_manager::get_visible, suggestion_manager::insert, suggestion_manager::resync_suggestion_iterator, suggestion_manager::suppress_suggestions", "clink/lib/src/suggestions.cpp"), ("rl_buffer", "clink/lib/src/rl/rl_buffer.cpp")], state=[("suggestion_manager", "the suggestion, where in it the line is, and where the end word begins", "clink/lib/include/lib/suggestions.h")])
M("F01", "What CMD reports about itself is read back exactly",
  "Clink has CMD write its exit code and its directory stack into a temporary file. Reading it gives back every line, in order and whole however long it is, without its line end (LF or CR LF), whatever its characters: bytes of the ANSI code page, or UTF-16 when CMD writes that (which is seen from the digit the file begins with). Empty lines are lines, and a last line needs no line end. Behind the last line there is nothing more, and a file that isn't there isn't opened. Nothing is read or written outside of the buffers.",
  "files", "every file of lines within the bounds, with arbitrary characters", "No test reads such a file.",
  "clink/lib/src/errfile_reader.cpp", [("errfile_reader::open, errfile_reader::next", "clink/lib/src/errfile_reader.cpp")], state=[("errfile_reader::m_buffer", "the line in UTF-16", "clink/lib/include/lib/errfile_reader.h")])
M("L01", "Matches are listed in as many columns as fit the screen",
  "Listing matches in columns makes each column at least as wide as every match in it, with its description and the space before that. Several columns together with the space between them never reach the last cell of the screen (or of what a scroll bar leaves), in either direction (down or across). When columns are fitted, each is only as wide as it needs to be, and there are as many as fit; otherwise all have the width of the widest, and there are as many of those as fit; and there is only one when one was asked for. There is always at least one. Descriptions formatted with three spaces are never moved to the right edge of their columns.",
  "widths of matches", "every combination of widths within the bounds, every screen width, direction and kind of layout", "No test lays matches out in columns.",
  "clink/lib/src/column_widths.cpp", [("calculate_columns, init_column_info, printable_len", "clink/lib/src/column_widths.cpp")], state=[("s_columns_info", "the widths of the columns of every layout that is tried", "clink/lib/src/column_widths.cpp")])
M("G02", "Each character of the input line gets the colour that was given to it",
  "A colour applies to exactly the characters from its start for its length, as far as they are in the line, whatever start and length are. It replaces what a character had, or, without overwriting, applies only to characters that have none. Classes of words are kept apart from colours, and show only where a character has no colour. Characters beyond the line have none, and a new line starts without any. The same code always is the same face, different codes are different ones (a hundred of them, then further ones are refused and the first stay), a face gives back its code, and another line can take the codes over. Two lines are equal exactly when all their colours and classes are.",
  "colours and places", "every start, length and face, every sequence of colours within the bounds", "Tests colour a handful of words through Lua.",
  "clink/lib/src/word_classifications.cpp", [("word_classifications::init, word_classifications::apply_face, word_classifications::finish, word_classifications::get_face, word_classifications::ensure_face, word_classifications::equals", "clink/lib/src/word_classifications.cpp")], state=[("m_faces, m_word_faces", "colours and classes by character", "clink/lib/include/lib/word_classifications.h"), ("m_face_definitions", "the codes of the faces", "clink/lib/include/lib/word_classifications.h")])
NA = {}
