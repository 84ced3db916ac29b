"""Harness executables: name -> (library group, harness sources)."""
RT = ["rt/rt.cpp", "rt/mb32.cpp", "hx.cpp"]
EXES = {
 "hcore": ("core", ["main_core.cpp", "c_str.cpp", "c_path.cpp", "c_match.cpp", "c_set.cpp", "c_mem.cpp"] + RT),
 "hterm": ("all", ["main_core.cpp", "c_term.cpp"] + RT),
 "hlib": ("all", ["main_core.cpp", "c_lib.cpp", "c_autorun.cpp", "rt/alias.cpp"] + RT),
 "hhist": ("all", ["main_core.cpp", "c_hist.cpp", "rt/alias.cpp", "rt/fileops.cpp"] + RT),
 "hmatch": ("all", ["main_core.cpp", "c_match2.cpp"] + RT),
 "hedit": ("all", ["main_core.cpp", "edit.cpp", "c_edit.cpp", "c_screen.cpp", "c_comp.cpp", "rt/alias.cpp", "rt/con.cpp"] + RT),
 "hline": ("all", ["main_core.cpp", "c_line.cpp", "rt/alias.cpp"] + RT),
 "hargs": ("all", ["main_core.cpp", "lu.cpp", "edit.cpp", "c_args.cpp", "c_api.cpp", "rt/alias.cpp", "rt/con.cpp"] + RT),
 "hlua": ("all", ["main_core.cpp", "lu.cpp", "c_lua.cpp", "c_glob.cpp", "c_event.cpp", "c_coro.cpp", "c_prompt.cpp", "rt/alias.cpp"] + RT),
 "hrace": ("all", ["main_core.cpp", "lu.cpp", "c_async.cpp", "rt/alias.cpp", "rt/race.cpp"] + RT),
}
