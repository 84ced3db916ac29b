#!/usr/bin/env python3
"""Builds /repo's current working tree (plus the harness in /verif/harness) with MinGW.

The sources are first mirrored by content into <build>/src, so that the incremental build only
depends on file contents (never on mtimes of /repo) and nothing is written into /repo.

Variants:
  plain : -O1, DEBUG asserts kept (they are recorded, not fatal)
  san   : -O1 + -fsanitize=undefined + -fsanitize=kernel-address (our runtime in harness/rt)
  race  : -O1, and the multi-threaded libraries with -fsanitize=thread (our runtime in harness/rt/race.cpp)
"""
import hashlib, os, re, subprocess, sys, glob, fcntl, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
MINGW_INC = "/usr/x86_64-w64-mingw32/include"
CC = "/usr/bin/x86_64-w64-mingw32-gcc-posix"
CXX = "/usr/bin/x86_64-w64-mingw32-g++-posix"
AR = "/usr/bin/x86_64-w64-mingw32-ar"
TOPS = ("clink", "readline", "lua", "wildmatch", "detours", "getopt")
EXTS = (".c", ".cpp", ".h", ".i", ".rc", ".lua", ".hpp", ".inl", ".inc", ".bat")

def sync_file(src, dst):
    data = open(src, "rb").read()
    try:
        if open(dst, "rb").read() == data: return False
    except OSError: pass
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if os.path.lexists(dst): os.unlink(dst)
    with open(dst, "wb") as f: f.write(data)
    return True

def mirror():
    dst = os.path.join(BUILD, "src")
    seen = set()
    for top in TOPS:
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            rel = os.path.relpath(d, REPO)
            if rel.split(os.sep)[0] == "clink" and rel.endswith("/test"): ds[:] = []; continue
            for f in fs:
                if f.endswith(EXTS):
                    r = os.path.join(rel, f); seen.add(r)
                    sync_file(os.path.join(d, f), os.path.join(dst, r))
    for f in ("premake5.lua", "_default_settings", "_default_inputrc"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            seen.add(f); sync_file(p, os.path.join(dst, f))
    for d, _, fs in os.walk(dst):
        for f in fs:
            r = os.path.relpath(os.path.join(d, f), dst)
            if r not in seen and not r.endswith(".gch"): os.unlink(os.path.join(d, f))
    return dst

def write_if(path, text):
    if not os.path.exists(path) or open(path, encoding="utf-8").read() != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, "w", encoding="utf-8").write(text)

def prepare(src):
    gen = os.path.join(BUILD, "gen"); shim = os.path.join(gen, "shim"); os.makedirs(shim, exist_ok=True)
    v = dict(re.findall(r"CLINK_VERSION_(MAJOR|MINOR|PATCH)[ \t]+([0-9]+)", open(f"{src}/clink/app/src/version.h", errors="replace").read()))
    s = ".".join(v.get(k, "0") for k in ("MAJOR", "MINOR", "PATCH")) + ".000000"
    write_if(f"{gen}/clink_commit.h", f'#pragma once\n#define CLINK_COMMIT 000000\n#define CLINK_VERSION_STR "{s}"\n#define CLINK_VERSION_LSTR L"{s}"\n#define CLINK_VERSION_STR_WITH_BRANCH "{s}"\n')
    system = {f.lower(): f for f in os.listdir(MINGW_INC)}
    names = set(system.values()); want = {}
    for top in TOPS:
        for d, _, fs in os.walk(f"{src}/{top}"):
            for f in fs:
                if f.endswith((".c", ".cpp", ".h", ".i", ".rc")):
                    for h in re.findall(rb'^\s*#\s*include\s*[<"]([^>"\n]+)[>"]', open(os.path.join(d, f), "rb").read(), re.M):
                        h = h.decode("latin-1")
                        if "\\" in h: want[h] = h.replace("\\", "/")
                        elif "/" not in h and h not in names and h.lower() in system: want[h] = system[h.lower()]
    for n, t in want.items(): write_if(os.path.join(shim, n), f"#include <{t}>\n")
    for f in set(os.listdir(shim)) - set(want): os.unlink(os.path.join(shim, f))
    return gen

CXXSTD = "-std=c++17 -fpermissive"
# name -> (globs, excludes, includes, extra flags c++, defines, pch)
LIBS = {
 "readline": (["readline/readline/*.c", "readline/compat/*.c"], r"/(emacs_keymap|vi_keymap)\.c$",
              ["readline", "readline/readline", "readline/compat", "wildmatch/wildmatch"], "", "-DBUILD_READLINE", None),
 "getopt": (["getopt/*.c"], None, [], "", "", None),
 "wildmatch": (["wildmatch/wildmatch/*.c"], None, [], "", "", None),
 "lua": (["lua/src/*.c"], r"/luac?\.c$", [], "", "-DBUILD_LUA -DBUILD_CLINK_LUA -fno-sanitize=nonnull-attribute", None),
 "detours": (["detours/*.cpp"], r"/(disolarm|disolarm64|disolia64|uimports)\.cpp$", [], "-fno-exceptions", "", None),
 "clink_lib": (["clink/lib/src/**/*.cpp", "clink/lib/src/**/*.c"], r"/pch\.cpp$",
               ["clink/lib/include/lib", "clink/core/include", "clink/terminal/include", "readline", "readline/compat", "wildmatch", "clink/lib/src"], "-fno-exceptions", "", "clink/lib/src"),
 "clink_lua": (["clink/lua/src/**/*.cpp", "clink/lua/scripts/*.cpp"], r"/pch\.cpp$",
               ["clink/lua/include/lua", "clink/core/include", "clink/lib/include", "clink/process/include", "clink/terminal/include", "lua/src", "readline", "readline/compat", "wildmatch", "clink/lua/src"], "-fno-exceptions", "", "clink/lua/src"),
 "clink_core": (["clink/core/src/**/*.cpp"], r"/pch\.cpp$", ["clink/core/include/core", "clink/core/src"], "-fno-exceptions", "", "clink/core/src"),
 "clink_terminal": (["clink/terminal/src/**/*.cpp"], r"/pch\.cpp$", ["clink/terminal/include/terminal", "clink/core/include", "clink/process/include", "clink/terminal/src"], "-fexceptions", "", "clink/terminal/src"),
 "clink_process": (["clink/process/src/**/*.cpp"], r"/pch\.cpp$", ["clink/core/include", "clink/process/include/process", "clink/process/src"], "-fno-exceptions", "", "clink/process/src"),
 "clink_app": (["clink/app/src/**/*.cpp", "clink/app/scripts/*.cpp"], r"/app/src/((dll|loader)/main|pch)\.cpp$",
               ["clink/app/src", "clink/core/include", "clink/lib/include", "clink/lua/include", "clink/process/include", "clink/terminal/include", "getopt", "lua/src", "readline", "readline/compat", "detours"], "-fno-exceptions", "", "clink/app/src"),
}
OSLIBS = "-lversion -lshlwapi -lrpcrt4 -lgdi32 -lole32 -ldbghelp -lkernel32 -luser32 -ladvapi32 -lshell32 -loleaut32 -luuid -lcomdlg32"
HINC = ["clink/app/src", "clink/core/include", "clink/lib/include", "clink/lib/include/lib", "clink/lib/src", "clink/lua/include", "clink/lua/include/lua",
        "clink/lua/src", "clink/process/include", "clink/terminal/include", "clink/terminal/include/terminal", "clink/core/include/core", "clink/terminal/src", "wildmatch/wildmatch", "wildmatch", "lua/src", "readline", "readline/compat"]
GROUPS = {
 "core": ["clink_core", "wildmatch"],
 "term": ["clink_core", "clink_terminal", "wildmatch"],
 "all": ["clink_app", "clink_lib", "clink_core", "clink_lua", "clink_process", "clink_terminal", "getopt", "wildmatch", "lua", "readline", "detours"],
}
DEFS = '-DHAVE_CONFIG_H -DHANDLE_MULTIBYTE -DDEBUG -D_DEBUG -DCLINK_BUILD_ROOT=\\"verif\\" -D__MSVCRT_VERSION__=0x0601 -D_WIN32_WINNT=0x0601 -DWINVER=0x0601 -DCLINK_VERIF -DWCHAR_T_BROKEN=1'
UBSAN = ("-fsanitize=undefined -fno-sanitize=alignment,vptr,null,object-size")
ASAN = ("-fsanitize=kernel-address --param asan-stack=1 --param asan-globals=0 --param asan-kernel-mem-intrinsic-prefix=1 "
        "--param asan-instrumentation-with-call-threshold=0 -fasan-shadow-offset=0x100000000000")
VARIANTS = {
 "plain": dict(flags="-O1 -g1", san=False),
 "san": dict(flags=f"-O1 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS {UBSAN} {ASAN}", san=True),
 "race": dict(flags="-O1 -g1 -fno-omit-frame-pointer", san=False),
}
TSAN = "-fsanitize=thread --param tsan-distinguish-volatile=1"
TSAN_LIBS = ("clink_lib", "clink_lua", "clink_core")
RACE_WRAPS = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "malloc", "free", "calloc", "realloc"]
WRAPS = ["_assert", "_wassert", "dbgassertf"]
SAN_WRAPS = ["malloc", "free", "calloc", "realloc", "_strdup", "strdup", "_wcsdup", "strlen", "wcslen", "strcpy", "strcat",
             "strncpy", "strcmp", "strncmp", "memcmp", "fread"]

def globs(src, pats, ex):
    out = []
    for g in pats:
        out += glob.glob(os.path.join(src, g), recursive=True)
    out = sorted(set(out))
    if ex: out = [f for f in out if not re.search(ex, f)]
    return out

def gen_ninja(variant, src, gen, exes):
    """exes: {exe name: (group, [harness sources])}"""
    V = VARIANTS[variant]; bd = os.path.join(BUILD, variant); os.makedirs(bd, exist_ok=True)
    common = f"{DEFS} -I{VERIF}/harness/shim -I{gen} -w -ffunction-sections -fdata-sections -idirafter{gen}/shim"
    L = ["ninja_required_version = 1.5",
         f"rule cc\n command = {CC} {common} $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
         f"rule cxx\n command = {CXX} {CXXSTD} {common} $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
         f"rule pch\n command = {CXX} {CXXSTD} {common} $flags -MMD -MF $out.d -x c++-header $in -o $out\n depfile = $out.d\n deps = gcc",
         f"rule ar\n command = rm -f $out && {AR} crs $out $in",
         f"rule link\n command = {CXX} -static -o $out $in $libs {OSLIBS}"]
    need = set()
    for e, (g, _) in exes.items(): need |= set(GROUPS[g])
    esc = lambda p: p.replace(" ", "$ ").replace(":", "$:")
    for lib in sorted(need):
        pats, ex, incs, cxxflags, defs, pch = LIBS[lib]
        inc = " ".join(f"-I{src}/{i}" for i in incs)
        objs = []
        pchdep = ""
        pinc = ""
        if pch:
            # A private copy of pch.h with its .gch beside it, found through -include before the
            # source's own #include "pch.h" (which #pragma once then skips).
            pd = os.path.join(bd, "pch_" + lib); os.makedirs(pd, exist_ok=True)
            sync_file(os.path.join(src, pch, "pch.h"), os.path.join(pd, "pch.h"))
            out = os.path.join(pd, "pch.h.gch")
            L.append(f"build {esc(out)}: pch {esc(os.path.join(pd,'pch.h'))}\n flags = {V['flags']}{' ' + TSAN if variant == 'race' and lib in TSAN_LIBS else ''} {inc} {cxxflags} {defs}")
            pchdep = f" | {esc(out)}"; pinc = f"-include {pd}/pch.h"
        for f in globs(src, pats, ex):
            o = os.path.join(bd, "obj", lib, os.path.relpath(f, src).replace("/", "_") + ".o")
            objs.append(o)
            c = f.endswith(".c")
            big = "-O0 -g0" if f.endswith("lua_scripts.cpp") else ""
            fl = V["flags"] + (" " + TSAN if variant == "race" and lib in TSAN_LIBS and not c else "")
            L.append(f"build {esc(o)}: {'cc' if c else 'cxx'} {esc(f)}{'' if c else pchdep}\n flags = {fl} {inc} {'' if c else cxxflags} {defs} {'' if c or big else pinc} {big}")
        L.append(f"build {esc(os.path.join(bd, 'lib'+lib+'.a'))}: ar {' '.join(map(esc, objs))}")
    hinc = " ".join(f"-I{src}/{i}" for i in HINC) + f" -I{VERIF}/harness"
    done = {}
    for e, (g, srcs) in exes.items():
        objs = []
        libs = [os.path.join(bd, f"lib{l}.a") for l in GROUPS[g]]
        for s in srcs:
            f = os.path.join(VERIF, "harness", s)
            o = os.path.join(bd, "hobj", s.replace("/", "_") + ".o")
            if o not in done:
                done[o] = 1
                isrt = s.startswith("rt/")
                fl = ("-O2 -g1 -fno-builtin" + (" -DVERIF_ASAN_RT" if V["san"] else "")) if isrt else ("-O1 -g1 -fno-omit-frame-pointer" + (" " + ASAN if V["san"] else ""))
                if s.endswith(".c"): L.append(f"build {esc(o)}: cc {esc(f)}\n flags = {fl} {hinc}")
                else: L.append(f"build {esc(o)}: cxx {esc(f)}\n flags = {fl} -fexceptions {hinc} {'-DVERIF_SAN' if V['san'] else ''}{'-DVERIF_RACE' if variant == 'race' else ''}")
            objs.append(o)
        wraps = WRAPS + (SAN_WRAPS if V["san"] else []) + (RACE_WRAPS if variant == "race" else [])
        wl = " ".join(f"-Wl,--wrap={w}" for w in wraps)
        out = os.path.join(bd, e + ".exe")
        L.append(f"build {esc(out)}: link {' '.join(map(esc, objs))} | {' '.join(map(esc, libs))}\n libs = {wl} -Wl,--start-group {' '.join(libs)} -Wl,--end-group")
    write_if(os.path.join(bd, "build.ninja"), "\n".join(L) + "\n")
    return bd

def build(variant, exes, verbose=False):
    """Returns {exe: path}; raises RuntimeError with the log when the build fails."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = mirror(); gen = prepare(src)
        bd = gen_ninja(variant, src, gen, exes)
        targets = [os.path.join(bd, e + ".exe") for e in exes]
        r = subprocess.run(["ninja", "-C", bd] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode: raise RuntimeError("build failed\n" + r.stdout[-6000:])
        if verbose: print(r.stdout[-500:])
        return dict(zip(exes, targets))

if __name__ == "__main__":
    t = time.time()
    sys.path.insert(0, VERIF)
    from tools.exes import EXES
    variant = sys.argv[1]; names = sys.argv[2:] or list(EXES)
    print(build(variant, {n: EXES[n] for n in names}, True)); print("%.1fs" % (time.time() - t))
