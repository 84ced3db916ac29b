# ---- core ------------------------------------------------------------------
p("C01","UTF-8/UTF-16 conversion is lossless and never leaves its buffers",
 "Converting any well-formed Unicode text between UTF-8 and UTF-16 and back yields the identical text, the two character iterators decode the same code points as the conversions, and lengths reported equal the code units written. Converting into a fixed-size destination stores a NUL-terminated prefix of the full conversion (it may end inside a character) and writes nothing outside the destination; lone surrogates become U+FFFD and ill-formed input of any other kind is converted without reading or writing out of bounds and always terminates.",
 ["inputs"],"all strings of code points (BMP, astral, combining, controls), all destination capacities, and all byte strings for the safety part",
 "the unit tests convert a handful of literals; length, capacity and ill-formed-input combinations are unbounded",
 ["clink/core/src/str_convert.cpp","clink/core/src/str_iter.cpp","clink/core/include/core/str_iter.h","clink/core/include/core/str.h"],
 [("converter / to_utf8 / to_utf16","clink/core/src/str_convert.cpp"),("str_iter_impl::next","clink/core/src/str_iter.cpp")],
 ["to_utf8/to_utf16 results","str_iter/wstr_iter sequences"])
p("C02","String buffers keep contents, length and capacity consistent",
 "After any sequence of assignments, appends, formatted writes, truncations, trims, clears, moves and reserves on a growable (up to its limit of 65,471 units) or fixed-size string, its text is exactly what the same operations on an unbounded string give (cut to the capacity for a fixed-size string, and an operation that had to cut reports failure), it is NUL-terminated, its length equals the text's length, and no operation touches memory outside the buffer.",
 ["inputs","histories"],"all operation sequences over all text and all capacities",
 "the tests run one short script per operation; the aliasing, growth and truncation interactions only appear in sequences",
 ["clink/core/include/core/str.h","clink/core/src/str.cpp"],
 [("str_impl::concat/format/truncate/reserve/attach","clink/core/include/core/str.h")],
 ["c_str(), length(), size(), return values"])
p("C03","Quote-aware tokenising splits exactly at unquoted delimiters",
 "For any text, any set of ASCII delimiters and any quote pairs, the tokens returned are exactly the maximal runs of non-delimiter characters, where characters between an opening quote and its closing quote (or the end of the text) are never delimiters and quotes stay part of the token; every token lies inside the text, in order, and the delimiter reported with a token is the one immediately before it (0 when there is none).",
 ["inputs"],"all texts, delimiter sets, quote pairs",
 "the tests check about ten literal strings",
 ["clink/core/src/str_tokeniser.cpp","clink/core/include/core/str_tokeniser.h","clink/lua/src/string_api.cpp"],
 [("str_tokeniser_impl::next_impl","clink/core/src/str_tokeniser.cpp")],
 ["token list from the tokeniser","string.explode from Lua"])
p("C04","Path normalisation is canonical and idempotent",
 "Normalising any Windows path yields a path with only the requested separator, no empty, '.' or resolvable '..' component, the same root (drive, UNC or device prefix) and the same remaining components in order; it never climbs above the root, denotes the same location as the input, and normalising the result again changes nothing.",
 ["inputs"],"all path strings over drives, UNC and device prefixes, dots, mixed and repeated separators and any component names",
 "the tests list about forty literal paths",
 ["clink/core/src/path.cpp","clink/core/include/core/path.h","clink/lua/src/path_api.cpp"],
 [("path::normalise / normalise_impl","clink/core/src/path.cpp"),("path::normalise_separators","clink/core/src/path.cpp")],
 ["path::normalise output","path.normalise from Lua"])
p("C05","Splitting a path and joining the parts gives the path back",
 "For any path, the name contains no separator, the base name plus the extension is the name when the name has an extension, the directory joined with the name is the same path up to redundant separators, appending components and then taking the parent returns to the start, and rooted/root/device/drive classification agrees with the Windows path grammar.",
 ["inputs"],"all path strings and component names","the tests list literal paths for each function in isolation",
 ["clink/core/src/path.cpp","clink/lua/src/path_api.cpp"],
 [("path::get_directory/get_name/get_base_name/get_extension/append/join/to_parent","clink/core/src/path.cpp")],
 ["return values and output strings"])
p("C06","Wildcard matching follows its pattern language",
 "A name matches a well-formed wildcard pattern exactly when the pattern language says so: '?' is one character (in file pattern matching also nothing at the end of the name), '*' any run (not crossing a directory separator where the mode says so), '**' as a whole component any number of directories, bracket classes and ranges as documented for globmatch, with the documented case folding and dot-file rules; matching any pattern, malformed or not, terminates and never reads outside the pattern or the name.",
 ["inputs"],"all patterns and names","the tests try a table of literal pairs",
 ["clink/core/include/core/match_wild.h","clink/core/src/path.cpp","wildmatch/wildmatch.c","clink/lua/src/path_api.cpp"],
 [("match_wild_impl","clink/core/include/core/match_wild.h"),("wildmatch/dowild","wildmatch/wildmatch.c")],
 ["match results"])
p("C07","String comparison modes agree with their definitions",
 "Comparing two strings reports full equality or the position of the first difference, where in exact mode characters are equal only when identical, in case-insensitive mode when they fold to the same case, in relaxed mode additionally '-' equals '_', and in the accent-insensitive modes Latin letters (U+00C0-U+017F) compare by base letter; the result is symmetric, unaffected by NULs after the end, identical texts hash equally, and slash and backslash are interchangeable.",
 ["inputs"],"all pairs of strings in each of the comparison modes","tests compare a few literals per mode",
 ["clink/core/include/core/str_compare.h","clink/core/src/str_compare.cpp","clink/core/include/core/str_hash.h"],
 [("str_compare_impl","clink/core/include/core/str_compare.h"),("normalize_accent","clink/core/src/str_compare.cpp")],
 ["str_compare results","string.matchlen from Lua"])
p("C08","Setting values are validated and read back as written",
 "Setting a setting from text either fails and leaves its value unchanged, or succeeds and the value read back, converted to text and set again, gives the same value; booleans, integers, enumerations, strings and colours accept exactly their documented spellings, a default is reported as default, and a colour setting yields the escape parameters its description denotes.",
 ["inputs"],"all settings and all value strings","tests sample a few literals of each type",
 ["clink/core/src/settings.cpp","clink/core/include/core/settings.h"],
 [("setting_impl<T>::parse/get/get_descriptive","clink/core/src/settings.cpp"),("setting_color::parse","clink/core/src/settings.cpp")],
 ["setting::set / get_descriptive / get"])
p("C09","The settings file round-trips, including settings clink does not know",
 "After any sequence of loading, changing, clearing and saving settings, reloading the file gives every setting the value last assigned to it (the default, from the default settings file if it gives one, where never assigned; strings without line breaks or leading blanks), a change made to the file only leaves the values in memory alone, values of settings that are not currently declared survive verbatim, later lines win over earlier ones for the same name, and a malformed or oversized file never crashes or corrupts memory.",
 ["inputs","histories"],"all sequences of set/clear/save/load/declare over all setting names and values, and all file contents",
 "the tests check in-memory settings and one set command, never a file written, edited by hand and reloaded repeatedly",
 ["clink/core/src/settings.cpp","clink/app/src/loader/set.cpp"],
 [("settings::load/save/load_internal/save_internal","clink/core/src/settings.cpp")],
 ["settings file bytes","values after reload"])
p("C10","Arena allocations never overlap and keep their contents",
 "Every block obtained from the arena is entirely inside memory the arena owns, does not overlap any other live block, keeps its contents until the arena is reset or the block is legitimately freed, zero-initialised requests are zero, and copied strings equal their source, for any mix of request sizes including larger than a page.",
 ["histories"],"all sequences of allocation requests and page sizes","the tests allocate a handful of fixed sizes",
 ["clink/core/src/linear_allocator.cpp","clink/core/include/core/linear_allocator.h"],
 [("linear_allocator::alloc/calloc/store/new_page","clink/core/src/linear_allocator.cpp")],["returned pointers and their bytes"])
p("C11","Environment variables are read, written and expanded faithfully",
 "A variable set through clink reads back as the same text, and expanding text replaces each %NAME% (percent signs pairing from left to right) whose variable exists with its value, leaves every other character (including unmatched or unknown %...% sequences) as it was, reports whether anything was expanded, and moves a cursor position to the corresponding place, for any Unicode content while the text fits clink's string limit.",
 ["inputs","histories"],"all texts, names and values","one fixture with a few short variables",
 ["clink/core/src/os.cpp","clink/lua/src/os_api.cpp"],[("os::expand_env","clink/core/src/os.cpp"),("os::get_env/set_env","clink/core/src/os.cpp")],
 ["output of expand_env, get_env"])
# ---- terminal ---------------------------------------------------------------
p("T01","Escape-code parsing partitions any text and is chunking-independent",
 "Parsing any text without NULs yields a sequence of pieces — printable runs, control characters, escape sequences — whose bytes in order are the text (incomplete or aborted sequences excepted), each classified per ECMA-48 with the parameters, intermediates and final byte it contains; escape sequences clink does not interpret pass through as text; and feeding the same text in chunks cut at any character boundaries yields the same sequences (printable runs may be cut where chunks are).",
 ["inputs"],"all byte strings and all ways to cut them into chunks","tests parse short literals, one split sequence",
 ["clink/terminal/src/ecma48_iter.cpp","clink/terminal/include/terminal/ecma48_iter.h"],
 [("ecma48_iter::next state machine","clink/terminal/src/ecma48_iter.cpp"),("decode_csi / decode_osc","clink/terminal/src/ecma48_iter.cpp")],
 ["codes returned by the iterator"])
p("T02","Text attributes combine correctly and reach the terminal",
 "Applying the difference between two sets of text attributes to the first yields the second, merging keeps the later value of every attribute that is set and the earlier value of the rest, and for any sequence of attribute changes (default and 16-colour palette colours, bold, underline, reverse) and printed text a terminal interpreting the emitted codes shows each character with exactly the colours and styles in force when it was printed, with the text itself unaltered and in order.",
 ["inputs","histories"],"all attribute pairs and all sequences of set/print operations","tests compare a few attribute pairs",
 ["clink/terminal/src/attributes.cpp","clink/terminal/src/printer.cpp"],
 [("attributes::diff/merge","clink/terminal/src/attributes.cpp"),("printer::flush_attributes","clink/terminal/src/printer.cpp")],
 ["bytes written to the terminal"])
p("T03","Character cells: text is divided into whole characters of known width",
 "Iterating any text by displayed character covers all of its bytes in order without splitting a code point, joining emoji sequences, combining marks and variation selectors to their base as documented, and the reported width of a string is the sum of the widths of its characters, independent of how it is iterated (stepping back, resuming, or starting at a character boundary).",
 ["inputs"],"all Unicode strings","a table of emoji literals",
 ["clink/terminal/src/wcwidth.cpp","clink/terminal/src/wcwidth_iter.cpp","clink/terminal/include/terminal/wcwidth.h"],
 [("wcwidth_iter::next/unnext","clink/terminal/src/wcwidth_iter.cpp")],["character pointers, lengths, widths"])
p("T04","Fitting text to a width never exceeds it and only drops what it must",
 "Shortening text with embedded colour codes to a given number of columns yields text no wider than the limit and the reported width is its real width; text that already fits is returned unchanged, otherwise what is kept is the longest prefix (or suffix, or drive plus suffix for paths) that leaves room for the ellipsis, no character is split, and colour codes outside the dropped part are preserved.",
 ["inputs"],"all texts, limits, modes and ellipsis strings","a table of literals at a few limits",
 ["clink/lib/src/ellipsify.cpp","clink/lib/include/lib/ellipsify.h"],[("ellipsify / ellipsify_ex","clink/lib/src/ellipsify.cpp")],["output text and returned width"])
# ---- lib ---------------------------------------------------------------------
p("L01","A command line is divided into commands and words as cmd.exe would",
 "For any input line and cursor, the commands and words found are in order, non-overlapping and inside the line; an unquoted, unescaped command separator always starts a new command and a quoted or escaped one never does, redirections and their targets are never ordinary arguments, quotes are balanced within a word or run to the end of the line, and the word being completed ends at the cursor.",
 ["inputs"],"all lines and cursor positions","a table of literal lines",
 ["clink/lib/src/cmd_tokenisers.cpp","clink/lib/src/word_collector.cpp"],
 [("cmd_command_tokeniser::next / cmd_word_tokeniser::next","clink/lib/src/cmd_tokenisers.cpp"),("word_collector::collect_words","clink/lib/src/word_collector.cpp")],
 ["commands and words returned"])
p("L03","Key sequences run the command bound to them, and none are lost",
 "For any set of key bindings and any input bytes, each complete bound sequence is dispatched exactly once to the binding registered for it (longest match first; when a handler passes, the next binding of the same keys in the order they were made, then shorter matches; numeric parameters captured), partial sequences wait for more input, what follows a shorter match is resolved again, and bytes that match nothing are dropped without disturbing later sequences.",
 ["inputs","histories"],"all binding tables and input byte sequences","tests bind a few chords and feed literals",
 ["clink/lib/src/binder.cpp","clink/lib/src/bind_resolver.cpp"],[("bind_resolver::step/next","clink/lib/src/bind_resolver.cpp"),("binder::bind","clink/lib/src/binder.cpp")],
 ["dispatched (module, id, chord, params) events"])
p("L04","Command history behaves as an ordered list with the configured policies",
 "After any sequence of adding, removing, replacing, clearing and compacting history and restarting, the history is the list of entered lines in order, minus exactly those removed, rejected or displaced by the configured duplicate, leading-space and size-limit policies; every line reads back byte for byte, and every timestamp stays with its line.",
 ["histories","configurations"],"all operation sequences under all combinations of history settings","tests run fixed scripts with one or two settings",
 ["clink/lib/src/history_db.cpp","clink/lib/include/lib/history_db.h"],
 [("history_db::add/remove/compact/clear","clink/lib/src/history_db.cpp"),("read_lock/write_lock line iteration","clink/lib/src/history_db.cpp")],
 ["history list as read back through the API and the files"],
 state=[{"name":"master/session banks, removals file, concurrency tag","meaning":"the persisted history","where":"clink_history* files"}])
p("L05","Concurrent sessions and crashes never lose or corrupt saved history",
 "With any number of sessions adding, removing, loading, compacting and exiting or being killed concurrently on the same history, every line whose addition completed and was not removed is present exactly as often as it was added once the sessions are reconciled, no line is torn or invented, a removal removes only the intended line, and lines from a killed session are recovered.",
 ["schedules","crash_points","histories"],"all interleavings of sessions and all points at which a session is killed","the tests run sessions one after another in one process",
 ["clink/lib/src/history_db.cpp"],
 [("file locks (bank_lock)","clink/lib/src/history_db.cpp"),("removals files and concurrency tag","clink/lib/src/history_db.cpp"),("history_db::reap","clink/lib/src/history_db.cpp")],
 ["history lines read after all sessions ended"])
p("L07","Offered completions are exactly the candidates that match, sorted, once",
 "Given the candidates produced by generators and the word typed, the completions offered are exactly the candidates that the active matching mode selects (prefix, substring only when no prefix match exists, wildcard), honouring hidden/system filters, each distinct completion appears once, in the documented order unless sorting was disabled, and the common prefix offered for insertion is a prefix of every one of them.",
 ["inputs","configurations"],"all candidate sets, needles and matching settings","the tests use small fixed candidate lists",
 ["clink/lib/src/match_pipeline.cpp","clink/lib/src/matches_impl.cpp"],
 [("match_pipeline::select/sort","clink/lib/src/match_pipeline.cpp"),("matches_impl::add_match/coalesce","clink/lib/src/matches_impl.cpp")],
 ["match list after select/sort"])
p("L08","Completing a word inserts the match so that it parses back to it",
 "Accepting a completion replaces exactly the word being completed, leaves the rest of the line untouched, and the inserted text — quoted and separated as configured — is read back by clink's own word parser as one word whose value is the chosen match.",
 ["inputs","configurations"],"all lines, cursor positions, matches (spaces, quotes, special characters) and quoting settings","tests complete a few fixed file names",
 ["clink/lib/src/matches_impl.cpp","clink/lib/src/line_editor_impl.cpp","clink/lib/src/rl/rl_integration.cpp"],
 [("rl filename quoting / insert_match","clink/lib/src/rl")],["line buffer after completion"])
p("L09","Line editing applies each command exactly and undo reverses it",
 "After any sequence of insertions, deletions, cursor movements, kill/yank, selection and undo commands, the input line equals what applying those commands to the text gives, the cursor is always on a character boundary inside the line, and undoing all the way returns to the original line.",
 ["inputs","histories"],"all sequences of editing commands and text","the tests never run editing sequences against a model",
 ["clink/lib/src/rl/rl_buffer.cpp","clink/lib/src/rl/rl_commands.cpp","readline/readline/text.c","readline/readline/kill.c","readline/readline/undo.c"],
 [("rl_buffer::insert/remove/undo","clink/lib/src/rl")],["line buffer and cursor after each command"])
p("L10","What the terminal shows is the prompt and the line being edited",
 "After any sequence of edits, resizes and redraws (a resize: from the row the terminal puts the line on), interpreting the output written to the terminal yields a screen showing the prompt followed by exactly the current input line (control characters as ^X, wrapped at the terminal width), with the cursor at the cell of the current cursor position and nothing stale left over.",
 ["inputs","histories"],"all prompts, lines, widths and edit sequences","the test terminal discards all output",
 ["clink/lib/src/display_readline.cpp"],[("display_manager::display / display_lines","clink/lib/src/display_readline.cpp")],["bytes written to the terminal"])
p("L11","Input colouring assigns one face to each byte, within each command's words",
 "Applying word classifications to any line assigns each byte exactly one face: the face of the classified word or explicitly applied range that covers it, with later non-overwriting applications never replacing earlier ones, nothing outside the line is touched, and the result does not depend on the memory reused from earlier lines.",
 ["inputs","histories"],"all lines, word lists and colouring calls","tests compare a few literals",
 ["clink/lib/src/word_classifications.cpp"],[("word_classifications::apply_face/finish","clink/lib/src/word_classifications.cpp")],["face per byte"])
p("L12","Queued input lines are delivered once, in order, unaltered",
 "Lines queued for execution are delivered exactly once each, in queue order (front insertions ahead of the rest, in their own order), whether taken a line or a character at a time or a mix of both, with their text unaltered apart from line-ending normalisation.",
 ["histories"],"all interleavings of queueing and dequeuing lines and characters","no test covers it",
 ["clink/lib/src/line_queue.cpp"],[("line_queue::enqueue_*/dequeue_*","clink/lib/src/line_queue.cpp")],["dequeued text"])
p("L13","A doskey alias expands to the command text its definition denotes",
 "Expanding an input line whose first word is a defined alias yields the definition with $1-$9, $*, $T, $B, $G, $L, $$ replaced as documented, in order, split into exactly the commands $T separates, and a line whose first word is not an alias (or starts with a space) is left unchanged.",
 ["inputs"],"all alias definitions and input lines","tests list literal cases; most cannot even run here",
 ["clink/lib/src/doskey.cpp"],[("doskey::resolve","clink/lib/src/doskey.cpp"),("doskey_alias::next","clink/lib/src/doskey.cpp")],["resolved command lines"])
p("L14","Match colours follow the colouring rules",
 "For any colour rule list and any file, the colour chosen is that of the first listed rule whose type and pattern conditions all hold, or else of the one-type default rules in the documented precedence (hidden, then directory or link, then readonly, executable, file), a malformed rule does not affect the rules before it, and the same inputs always give the same colour.",
 ["inputs","configurations"],"all rule strings and file names/types","tests list literal rules",
 ["clink/lib/src/match_colors.cpp"],[("parse_match_colors / get_match_color","clink/lib/src/match_colors.cpp")],["colour returned"])
# ---- lua ---------------------------------------------------------------------
p("U01","Directory and file listings agree with the file system",
 "Listing a directory or file pattern returns every entry that exists and matches, once each, with a trailing separator exactly for directories, correct attributes, and honours the hidden/system/dir/file options, for any set of names including non-ASCII ones.",
 ["inputs","configurations"],"all directory contents and patterns","tests create a handful of files",
 ["clink/core/src/globber.cpp","clink/lua/src/os_api.cpp"],[("globber::next","clink/core/src/globber.cpp"),("os.globdirs/os.globfiles","clink/lua/src/os_api.cpp")],["entries returned vs entries created"])
p("U02","Session streams behave as seekable in-memory files",
 "A session stream is a byte array: any sequence of writes, appends, reads (by count, line, number, all), seeks, closes and reopenings in any mode behaves as on a file with the same contents and mode, several handles on the same name see the same bytes, and content persists for the session.",
 ["histories"],"all operation sequences on one or several streams","tests run fixed scripts",
 ["clink/lua/src/sessionstream.cpp"],[("session_stream::read/write/gets/truncate","clink/lua/src/sessionstream.cpp")],["values returned by each operation"])
p("U03","Lua coroutines run to completion, in isolation and in order",
 "Every coroutine started for background work is resumed until it finishes unless cancelled by a new edit line, at its requested interval, each keeps its own results, an error in one never stops the others, and prompt-filter coroutines return the value computed by their own body.",
 ["schedules","histories"],"all sets of coroutines, yields, errors and scheduling orders","tests run a few fixed coroutines",
 ["clink/lua/scripts/coroutines.lua"],[("clink._resume_coroutines","clink/lua/scripts/coroutines.lua")],["trace of resume/finish events"])
p("U04","Event handlers all run, in registration order, with documented cancel rules",
 "Sending an event calls every registered handler exactly once in registration order with the documented arguments, a handler's result stops or replaces later input only where documented, and a failing handler does not prevent later events.",
 ["histories"],"all handler sets and results","tests register one or two handlers",
 ["clink/lua/scripts/events.lua"],[("clink._internal._send_event*","clink/lua/scripts/events.lua")],["call trace"])
p("U05","Argument matchers offer exactly the arguments the grammar allows at the cursor",
 "For any argument matcher built from positions, flags, linked sub-matchers and loops, the completions offered at the cursor are exactly those the declared grammar allows after the preceding words, with flags recognised by prefix and ended by the end-of-flags marker as declared.",
 ["inputs","programs"],"all matcher definitions and command lines","the tests check fixed matchers",
 ["clink/lua/scripts/arguments.lua"],[("_argreader / _argmatcher","clink/lua/scripts/arguments.lua")],["completion list"])
p("U06","Every Lua API call is memory-safe and returns or raises a Lua error",
 "Calling any function of the clink, console, io, log, os, path, rl, settings, string and unicode scripting libraries, or any method of the objects they hand out (line state, match builder, matches, word classifications, rl_buffer), with any argument values and in any context a script can run in (main state, coroutine, match generator, classifier, key binding, or after the object's owner is gone) returns normally or raises a Lua error: it never crashes, hangs, accesses memory out of bounds or after its lifetime, or executes undefined behaviour, and it leaves the Lua stack balanced.",
 ["inputs"],"all API functions, argument values, calling contexts and sequences of calls","tests call few functions with valid arguments",
 ["clink/lua/src"],[("lua_CFunction bindings","clink/lua/src")],["process survival, sanitizer reports"])
p("U07","The prompt shown is what the active prompt filters made of it",
 "Filtering a prompt calls every prompt filter that applies (those not from a custom prompt file, and those from the active custom prompt or the prompts it depends on) in increasing priority order, each on the text the previous one returned, left side before right side; a nil result changes nothing, a false second result stops (and for a transient prompt together with nil cancels it), surrounding texts nest with earlier filters outermost, a filter that fails yields the error prompt and is reported, and the result is that text with the expanded prefixes, suffixes and shell integration codes around its last line; prompt codes expand as documented, and activating a custom prompt runs each prompt's activation and deactivation functions in pairs.",
 ["programs","histories","inputs"],"all sets of filters and results, custom prompt files, prompt texts, environment values and directories","tests run no prompt filter beyond one or two fixed ones",
 ["clink/app/scripts/prompt.lua","clink/app/scripts/config.lua","clink/lua/src/prompt.cpp","clink/lua/scripts/events.lua"],[("_do_filter_prompt","clink/app/scripts/prompt.lua"),("prompt_utils::expand_prompt_codes","clink/lua/src/prompt.cpp"),("prompt_filter::filter","clink/lua/src/prompt.cpp")],["prompt and right prompt returned","trace of filter calls"])
# ---- app ---------------------------------------------------------------------
p("A01","Autorun install and uninstall touch only clink's own entry",
 "Installing autorun adds exactly one clink entry to the command processor's startup commands, reinstalling replaces it, uninstalling removes it, and any other startup commands the user has are preserved unchanged whatever they contain.",
 ["inputs","histories"],"all pre-existing startup command strings and install/uninstall sequences","no test covers it",
 ["clink/app/src/loader/autorun.cpp"],[("install/uninstall/find clink entry","clink/app/src/loader/autorun.cpp")],["registry value before/after"])
# ---- whole -------------------------------------------------------------------
p("S01","No memory error or undefined behaviour on any input",
 "Whatever text, files, settings, scripts or keys it is given, the program never accesses memory it does not own, uses freed memory, frees twice, overruns a buffer, or executes operations with undefined results.",
 ["inputs","histories"],"all inputs to all components","the tests run without sanitizers and on well-formed inputs only",
 ["clink","readline","lua","wildmatch","getopt"],[("bounds and lifetime discipline throughout","clink")],["sanitizer reports"])
p("U08","Asynchronous calls from scripts deliver their result exactly once",
 "http.request and os.enumshares send exactly what the script asked for and return exactly what the service answered, however it arrives in pieces or fails, whether called on the main coroutine (blocking) or in coroutines (yielding, any number at a time); a coroutine that waits for such a call or for os.sleep is resumed once it is done, and only its own results are delivered to it; coroutines that are dropped by a new input line or an engine restart never crash it; and every handle and buffer of the service is released exactly once.",
 ["schedules","inputs","faults"],"all interleavings of the background threads with the idle loop, all answers and failures of the services","no test makes an asynchronous call",
 ["clink/lua/src/async_lua_task.cpp","clink/lua/src/http_api.cpp","clink/lua/src/os_api.cpp","clink/lua/src/lua_input_idle.cpp","clink/lua/scripts/coroutines.lua"],[("async_lua_task::proc, wake_asyncyield","clink/lua/src/async_lua_task.cpp"),("httprequest_async_lua_task::do_work","clink/lua/src/http_api.cpp"),("enumshares_async_lua_task","clink/lua/src/os_api.cpp")],["values returned to the scripts","calls to the services","resumed coroutines","open handles"])
p("S02","Background work never races with editing",
 "Shared state used by the background command recogniser and asynchronous Lua tasks is only accessed under its lock or after a proper hand-off, every queued item is processed at most once, and its result is delivered for the text and the directory and PATH it was computed from; every word asked for gets an answer that agrees with the file system, every path type asked for is right, and its callback runs once, on an idle pass of the same input line.",
 ["schedules"],"all interleavings of background threads with the main thread","tests disable the asynchronous recogniser",
 ["clink/lib/src/recognizer.cpp","clink/lua/src/async_lua_task.cpp","clink/lua/src/internal_api.cpp"],[("recognizer queue/cache locks","clink/lib/src/recognizer.cpp"),("task_manager","clink/lua/src/async_lua_task.cpp")],["race reports, queue event trace"])
