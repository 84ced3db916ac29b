"""mkseed.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++), GROUP"""
import sys, os, subprocess, json, shutil
ns = {}; exec(open(sys.argv[1]).read(), ns)
D = "/verif/seeded/" + ns["ID"]; os.makedirs(D, exist_ok=True)
subprocess.check_call(["git", "-C", "/repo", "diff", "--quiet"])
try:
    for f, old, new in ns["EDITS"]:
        p = "/repo/" + f; b = open(p, "rb").read(); crlf = b"\r\n" in b
        o, n = old.encode(), new.encode()
        if crlf: o = o.replace(b"\n", b"\r\n"); n = n.replace(b"\n", b"\r\n")
        assert b.count(o) == 1, (f, b.count(o), old)
        open(p, "wb").write(b.replace(o, n))
    d = subprocess.check_output(["git", "-C", "/repo", "diff", "--binary"])
    open(D + "/patch.diff", "wb").write(d)
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
shutil.copy("/verif/tools/seed_run.sh", D + "/run.sh")
open(D + "/demo.cpp", "w").write(ns["DEMO"])
open(D + "/demo.sh", "w").write(f"""#!/bin/bash
. "$(dirname "$0")/run.sh"
build_demo demo.cpp demo.exe {ns['GROUP']}
run_demo demo.exe
""" if "SH" not in ns else ns["SH"])
os.chmod(D + "/demo.sh", 0o755)
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(D + "/meta.json", "w"), indent=1)
