"""What each property's check runs.  cases = (quick, thorough)."""
def part(exe, check, quick, thorough, variant="san", **kw): return dict(exe=exe, check=check, cases=(quick, thorough), variant=variant, **kw)
CHECKS = {
 "C01": dict(parts=[part("hcore", "C01", 160000, 6000000)],
   rule="a case is one generated text (code points over all planes, or ill-formed units) run through every conversion, capacity and iterator; non-trivial when the text is not empty",
   must_see=["valid_texts", "ill_formed_texts", "capacities"]),
 "C02": dict(parts=[part("hcore", "C02", 300000, 10000000)],
   rule="a case is a random sequence of 4-40 operations on one string type against an unbounded model; non-trivial and distinct by operation sequence and final text",
   must_see=["operations"]),
 "C03": dict(parts=[part("hcore", "C03", 400000, 10000000)],
   rule="a case is one text over delimiters, quotes, letters and arbitrary code points with one delimiter set and quote set, tokenised as UTF-8 and UTF-16 through all three output forms; non-trivial when it has a token",
   must_see=["tokens"]),
 "C04": dict(parts=[part("hcore", "C04", 400000, 10000000)],
   rule="a case is one path (relative, rooted, drive, UNC, \\\\?\\ forms, device, or raw text) normalised against a component-stack model; non-trivial when it has more than one component",
   must_see=["kind_0", "kind_1", "kind_2", "kind_3", "kind_4", "kind_5", "device_paths", "raw_texts"]),
 "C05": dict(parts=[part("hcore", "C05", 200000, 6000000)],
   rule="a case is one generated path put through every splitting, joining and classification function against the path grammar; non-trivial when not empty",
   must_see=["kind_rel", "kind_unc", "kind_ns-unc", "kind_drive"]),
 "C06": dict(parts=[part("hcore", "C06", 600000, 20000000)],
   rule="a case is one pattern and one name (usually derived from the pattern) matched by path::match_wild in one comparison mode or by wildmatch with one flag set, against a reference matcher; malformed patterns are judged for termination and memory only; non-trivial when the pattern has a wildcard",
   must_see=["wild_matches", "wild_rejects", "wild_many_stars", "fn_matches", "fn_rejects", "fn_wildstar", "fuzz"]),
 "C07": dict(parts=[part("hcore", "C07", 400000, 10000000)],
   rule="a case is a pair of texts (usually a variation of one text in case, accents, dashes, slashes) compared in one mode as UTF-8 and UTF-16, both ways round; non-trivial when longer than one character",
   must_see=["equal_pairs", "different_pairs", "mode_0", "mode_1", "mode_2", "mode_0_accents", "mode_1_accents", "mode_2_accents"]),
 "C08": dict(parts=[part("hcore", "C08", 300000, 6000000)],
   rule="a case declares one setting (bool, int, string, enum or colour) and applies 2-8 set/clear operations with documented and undocumented spellings against a model (colours through an SGR interpreter)",
   must_see=["kind_0", "kind_1", "kind_2", "kind_3", "kind_4", "colors_accepted", "colors_rejected"]),
 "C09": dict(parts=[part("hcore", "C09", 8000, 300000)],
   rule="a case writes a settings file (and sometimes a defaults file), then runs up to 8 set, clear, declare, save, reload, sandboxed-set and overlay operations against a model; the file is read by an independent parser",
   must_see=["saves", "reloads", "sandboxed", "overlays", "malformed_or_large"]),
 "C10": dict(parts=[part("hcore", "C10", 24000, 600000)],
   rule="a case is 5-60 allocation, zeroed allocation, string store, reset, clear, move and failing-malloc operations on 1-3 arenas of differing page size; every live block is filled and re-checked after every operation",
   must_see=["oversized", "same_page", "new_page", "zeroed", "stored", "resets", "moves", "failed_allocations"]),
 "C11": dict(parts=[part("hcore", "C11", 20000, 600000)],
   rule="a case is 3-14 set, unset, get and expand operations over variables with ASCII, non-ASCII and odd names and values up to 20,000 units; expansion text is built from pieces so the result and the cursor's place are known by construction; non-trivial when something was expanded",
   must_see=["gets", "missing", "expanded", "unexpanded", "dynamic"]),
 "T01": dict(parts=[part("hterm", "T01", 60000, 2000000)],
   rule="a case is one text built from escape sequences (complete, truncated, nested, malformed), control characters and printable text, parsed whole and in random chunks by the real parser and by an independent state machine; non-trivial when it has a piece",
   must_see=["pieces_1", "pieces_2", "pieces_3", "pieces_4", "csi_decoded", "osc_decoded", "chunks", "long_runs", "processed"]),
 "T02": dict(parts=[part("hterm", "T02", 60000, 2000000)],
   rule="a case is three pairs of attribute sets combined, one random sequence of attribute changes and prints shown by an SGR interpreter or through clink's terminal emulation, and one text of SGR and cursor codes fed to the emulation in chunks; distinct by attribute values and operation log",
   must_see=["algebra", "prints", "attr_prints", "raw_prints", "cells", "sgr", "cursor_ops"]),
 "T03": dict(parts=[part("hterm", "T03", 300000, 6000000)],
   rule="a case is one text of letters, controls, wide characters, emoji, joiners, selectors and marks iterated by displayed character with random stepping back, repositioning and copying, against the documented grouping rules; non-trivial when not empty",
   must_see=["color_texts", "plain_texts", "characters", "sequences", "steps_back", "single_widths"]),
 "T04": dict(parts=[part("hterm", "T04", 300000, 8000000)],
   rule="a case is one text of characters (narrow, wide, combining, control) and escape codes shortened in one of the modes to one limit with a default or custom ellipsis, against a list-of-pieces reference; non-trivial when the text has width",
   must_see=["mode_0_cut", "mode_1_cut", "mode_2_cut", "mode_3_cut", "mode_0_fits", "mode_2_fits"]),
 "L13": dict(parts=[part("hline", "L13", 200000, 6000000)],
   rule="a case is 1-4 alias definitions over all tags and one input line of aliases, arguments, quotes, carets, redirections and separators, resolved with or without the cursor, legacy or enhanced, against an independent expansion; the console's alias table is a stand-in; non-trivial when an alias was expanded",
   must_see=["expanded", "not_aliases", "multiple_commands", "lookups", "cursors_kept"]),
 "L01": dict(parts=[part("hline", "L01", 200000, 6000000)],
   rule="a case is a command line written from cmd's grammar (commands, parentheses, quotes, carets, flags, redirections, aliases, rem), whose commands and words are known by construction and which is also cut at cursor positions, or a line of arbitrary fragments judged by invariants; non-trivial when it has more than one word",
   must_see=["built_lines", "random_lines", "redirections", "quoted", "aliases", "cursors", "cursors_at_start", "line_states", "dot_slash"]),
 "L03": dict(parts=[part("hlib", "L03", 60000, 2000000)],
   rule="a case is 1-14 key bindings (catch-alls, nested prefixes, parameters, every chord notation) in 1-3 groups and up to 60 typed keys from complete, cut and stray sequences, with claims, passes and group changes, against a trie; distinct by bindings and keys",
   must_see=["keys", "dispatched", "waits", "params", "passes", "resumed", "regrouped", "too_long", "overflowed"]),
 "L04": dict(parts=[part("hhist", "L04", 5000, 120000)],
   rule="a case is a random sequence of 6-60 operations (add, remove by text and by index, find, load with pruning, clear, settings changes, restart, kill, `clink history` commands in a second process of the session) from an empty, hand-edited or migrated history, against a list model; non-trivial and distinct by operation sequence",
   must_see=["adds_new", "adds_duplicate", "adds_rejected", "removes_by_text", "removes_by_index", "clears", "loads", "restarts", "kills", "compacts", "cli_deletes", "lines_pruned", "initial_files", "large_files", "migrations"]),
 "L05": dict(parts=[part("hhist", "L05", 4000, 120000, variant="plain")],
   rule="a case is 2-4 fibers, each running one or two sessions (and their `clink history` commands) over one history under a random schedule with every file operation a switching point, random kills at file operations and injected failures of master file operations; afterwards the history is reconciled by fresh sessions and compared with the log of completed operations; distinct by schedule (sequence of file operations of the sessions), non-trivial with more than two switches",
   must_see=["adds", "removes", "deletes", "deletes_refused", "reads", "loads", "compacts", "clears", "exits", "kills", "killed_in_add", "killed_in_exit", "lock_waits", "faults", "cli_commands"]),
 "L11": dict(parts=[part("hlib", "L11", 60000, 2000000)],
   rule="a case is 1-4 lines coloured in turn with up to 150 word and range applications each, reusing or discarding earlier face definitions, against two arrays; distinct by operations",
   must_see=["lines", "kept_faces", "faces", "too_many_faces", "overwrites", "fills", "finished", "compared_faces"]),
 "A01": dict(parts=[part("hlib", "A01", 60000, 2000000)],
   rule="a case is up to four registry locations (the user, another user, both machine views) with random startup commands of the user's and possibly an entry for clink in any of its forms at any position, and 1-5 `clink autorun` commands (install with arguments, uninstall, set, show; for the user, all users or from the uninstaller), some with a failing registry write or refused access, over a stand-in registry; values are divided into commands as cmd.exe does; distinct by values and commands",
   must_see=["install", "uninstall", "set", "show", "created", "appended", "replaced", "removed", "quoted_entries", "plain_entries", "write_faults", "denied", "all_users", "enum_users", "long_arguments"]),
 "L12": dict(parts=[part("hlib", "L12", 60000, 2000000)],
   rule="a case is 1-40 operations queueing lines at either end and taking lines and characters, against a list; distinct by operations",
   must_see=["back", "continued", "front", "whole_lines", "rest_of_line", "chars", "aliases", "clears"]),
 "L07": dict(parts=[part("hmatch", "L07", 20000, 600000)],
   rule="a case is 0-150 candidates of all types, attributes and provenance (some naming real files and directories) offered for a word under random matching, hiding, sorting and slash settings, then selected for 1-4 words in turn, sorted, iterated with patterns, handed over and restricted, against set and order models; one case in 600 offers more than 65,535; non-trivial when something is offered, distinct by settings, candidates and word",
   must_see=["found", "found_nothing", "substring_found", "sorted", "unsorted", "common_prefixes", "pattern_iterations", "found_directories", "found_duplicates", "large_lists", "restricted", "kept", "after_handover", "reused", "tilde_words"]),
 "L14": dict(parts=[part("hmatch", "L14", 60000, 2000000)],
   rule="a case is a list of 1-9 rules (types, negations, quoted and escaped patterns, defaults, completion prefix rules, some malformed) applied to 12 files of random types and attributes, against a rule interpreter; non-trivial when a colour is chosen, distinct by rules, file and type",
   must_see=["colored", "uncolored", "default_rules", "conditional_rules", "prefix_rules", "prefix_colors", "malformed"]),
 "L09": dict(parts=[part("hedit", "L09", 24000, 1600000)],
   rule="a case is 20-70 editing commands (typing, movement, deletion, killing and yanking, case changes, transposing, selection, clipboard, undo, overwriting, expansion; with numeric arguments) given as keys to a real line editor, on lines with multi-byte, wide and combining characters, each compared with a code point model of the line, cursor, selection, kill ring, clipboard and undo; distinct by command, argument, line, cursor and selection, non-trivial when any of those changes",
   must_see=["commands", "kills", "undos", "with_selection", "with_argument", "overwriting", "multibyte_lines"]),
 "L08": dict(parts=[part("hedit", "L08", 20000, 2000000)],
   rule="a case is a line with a word being typed (plain, quoted, with quotes around its directory, with text or a closing quote after the cursor), up to six candidates, completion settings and one completion command run to its end; the resulting line is divided by clink's own parser and the word's value, its surroundings, the offers of a menu and what is appended are judged; distinct by line, cursor, command and first candidate, non-trivial when something matches",
   must_see=["append_char", "closing_quote", "cycles", "embedded_quotes", "inserted_all", "menus", "no_matches", "open_quote", "prefixes", "selected", "single", "text_after"]),
"L10": dict(parts=[part("hedit", "L10", 24000, 2000000)],
   rule="a case is an editing session (prompt, right prompt, terminal size, wrapping or horizontal scrolling, and up to 40 keys, redraws, prompt changes, screen clears and resizes) given to a real line editor whose output drives a model terminal; after every step the cells and the cursor are compared with an independent layout of the prompt and the line; distinct by the text, cursor, size and mode shown, non-trivial when the screen differs from the previous one",
   must_see=["screens", "wrapped", "scrolled_rows", "horizontal", "right_prompts", "selections", "screen_clears", "resizes", "accepted"]),
 "U05": dict(parts=[part("hargs", "U05", 2200, 60000, "plain"), part("hargs", "U05", 150, 6000)],
   rule="a case is 1-5 argument matchers linking to one another (and to themselves) with positions, flags, flag prefixes, loops, end-of-flags markers, hidden entries, functions, argument callbacks, nofiles, resets, second definitions and merges, defined through the scripting interface, and 3-8 command lines typed into a real line editor, mostly following the grammar; the matches offered and whether files are offered are compared with a model of the grammar; distinct by definition and line",
   must_see=["lines", "offers", "flags", "flags_ended", "links", "relinks", "loops", "pops", "files", "no_files", "hidden", "functions", "user_data", "advance_repeats", "advance_skips", "loopchars", "unsorted", "cycles", "resets", "defined_again", "merged"]),
 "U06": dict(parts=[part("hargs", "U06", 24000, 600000)],
   rule="a case is 1-24 protected calls of any scripting functions and methods (with arguments of the expected kinds, or of any kind: nothing, NULs, malformed text, very long text, infinite numbers, tables, functions, objects whose owner is gone) on the main state, in a coroutine, in a match generator, with matches, in a classifier, from a key binding of a real line editor and after those are gone; distinct by the calls, non-trivial when a function is called",
   must_see=["calls_clink", "calls_console", "calls_io", "calls_log", "calls_os", "calls_path", "calls_rl", "calls_settings", "calls_string", "calls_unicode", "returns", "errors", "methods", "iterators", "repeated", "in_coroutine", "in_generator", "with_matches", "in_classifier", "in_luafunc", "after_objects", "engines"]),
 "S02": dict(parts=[part("hrace", "S02", 3000, 100000, "race"), part("hrace", "S02", 2000, 60000)],
  rule="a case is 1-4 input lines, between which the directory, PATH and files change, of 1-8 steps of asking the recogniser for words (relative, rooted, with and without extension, found or not, in other case), asking for path types with and without a timeout, idle passes, refreshes and pauses, with random delays in the background threads' file lookups and, in the instrumented build, at synchronisation points; every memory access of the code under test is checked against the happens-before order of mutexes, events, thread starts and ends, static guards and atomics; distinct by history, non-trivial with more than one line",
  must_see=["callbacks", "callbacks_due", "idle_passes", "lines", "lookups", "not_ready", "recognized", "unrecognized", "settled", "threads", "types", "types_pending", "race_accesses", "race_hand_offs"]),
 "U08": dict(parts=[part("hrace", "U08", 1500, 50000, "race"), part("hrace", "U08", 1500, 50000)],
  rule="a case is blocking calls on the main coroutine and 1-6 coroutines of 1-3 http requests, share enumerations, sleeps and yields against stand-ins for the services with random answers (bodies in pieces of any size, failures of every stage, delays), driven by the real idle loop, in a quarter of the cases dropped half way or followed by an engine restart; results, what was sent, resumption of every coroutine and release of every handle and buffer are judged, and memory accesses as in S02; distinct by history, non-trivial with more than one coroutine",
  must_see=["blocking", "dropped", "partial_reads", "several_blocks", "released", "requests", "requests_failed", "restarts", "share_batches", "shares", "sleeps", "wakeups", "timeouts", "threads", "race_accesses", "race_hand_offs"]),
 "U02": dict(parts=[part("hlua", "U02", 14000, 600000)],
   rule="a case is 3-40 operations (open in every mode, write, read by count, line, number and all, lines, seek, truncate, close, drop, engine restart) through the scripting interface on handles of 1-3 named streams, against byte arrays; contents include NULs, line endings of both kinds and sizes around the internal buffers and the 4 MB limit; distinct by operation sequence",
   must_see=["created", "shared", "hole", "overwrite", "long_line", "nul_line", "number", "read_zero", "read_eof", "seek_past_end", "seek_before_start", "truncated", "missing_refused", "existing_refused", "readonly_refused", "writeonly_refused", "closed_refused", "dropped", "restarted", "full", "streams_verified"]),
 "U04": dict(parts=[part("hlua", "U04", 8000, 300000)],
   rule="a case is 4-25 registrations (also repeated, and of non-functions) and deliveries of 1-3 kinds of event to up to 10 handlers whose results, errors, changes of directory and registrations during delivery are chosen afresh for each delivery, against the documented order, cancellation and replacement rules; distinct by that history, non-trivial with more than five steps",
   must_see=["registered", "registered_twice", "non_functions", "deliveries", "failures", "lines_provided", "several_lines", "input_replaced", "history_canceled", "history_replaced", "canceled", "matches_filtered", "matches_displayed", "undocumented_results"]),
 "U03": dict(parts=[part("hlua", "U03", 4000, 150000)],
   rule="a case is 2-10 steps of starting coroutines (ordinary and of prompt filters, each a random program of up to 7 yields, background commands, directory changes, nested and wrapped coroutines, errors, main-coroutine callbacks, interval and until-complete requests), filtering the prompt, idle passes driven by the reported wait duration, and new edit lines; background commands are stand-ins that finish when the workload says; distinct by that history, non-trivial with more than three steps",
   must_see=["coroutines", "prompt_coroutines", "started", "resumed", "completed", "errors", "on_main", "commands", "popened", "pclosed", "executed", "popen_failed", "manual", "held", "directories", "prompt_results", "passes", "edit_lines"]),
 "U07": dict(parts=[part("hlua", "U07", 1500, 60000)],
   rule="a case is up to 12 prompt filters (ordinary, right side, transient, surrounding, deprecated; distinct priorities; some from up to 4 custom prompt files, some depending on others, some broken) and 3-9 steps of filtering a prompt or a transient prompt with random results, errors and stops, activating custom prompts, sending events, changing prefixes, directory and shell integration, plus direct expansions of prompt codes and tagged prompts; distinct by that history, non-trivial with more than one filter",
   must_see=["expansions", "tagged", "prompts", "calls", "several_filters", "transient_prompts", "transient_disabled", "filter_errors", "shell_integration", "modules_activated", "modules_with_dependencies", "modules_refused", "module_queries", "events"]),
 "U01": dict(parts=[part("hlua", "U01", 3000, 100000)],
   rule="a case is a directory of up to 14 (sometimes 600) files and directories with ASCII and non-ASCII names, hidden, system and read-only attributes, sizes and times, listed 8 times through the globber class and os.globfiles, os.globdirs and os.findfiles (also from a coroutine) with random patterns, spellings of the directory and options, against what was created; distinct by pattern and options, non-trivial when something is listed",
   must_see=["listings", "multiple", "empty_listings", "hidden", "readonly", "directories", "files", "quoted", "relative", "drive_relative", "types", "sizes", "lua_lists", "in_coroutine", "findfiles", "dots", "closed_early"]),
}
