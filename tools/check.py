#!/usr/bin/env python3
"""Runs one property's check: builds /repo's current tree with the harness, runs the workload under
Wine in throw-away containment, and lets the monitors' reports decide.

  check.py ID [--tier quick|thorough] [--seed N] [--cases N] [--jobs N] [--replay FILE]

exit 0: the property held on everything observed (known findings are printed, not alarms)
exit 1: a line "VIOLATION property=<id> replay=<path>" per distinct violation
exit 2: the check could not decide (build/harness failure, nothing observed)
"""
import sys, os, re, json, time, subprocess, shutil, tempfile, argparse, struct, fnmatch
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from tools import vbuild
from tools.exes import EXES
from tools.checks import CHECKS

ADDR2LINE = "/usr/bin/x86_64-w64-mingw32-addr2line"
JOBS = 8
NOBODY = 65534

class Wine:
    """A throw-away Wine prefix owned by an unprivileged user, without a drive for the real root."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vchk-", dir="/tmp"); os.chmod(self.dir, 0o755)
        self.home = self.dir + "/home"; self.prefix = self.dir + "/wp"
        for d in (self.home, self.prefix): os.mkdir(d)
        self.user = None
        if os.getuid() == 0:
            for d in (self.home, self.prefix): os.chown(d, NOBODY, NOBODY)
            self.user = NOBODY
        self.env = dict(PATH="/usr/bin:/bin", HOME=self.home, WINEPREFIX=self.prefix, WINEDEBUG="-all", LANG="C.UTF-8", LC_ALL="C.UTF-8",
                        WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe=", TERM="dumb", USER="nobody", LOGNAME="nobody")
        if os.environ.get("VERIF_TRACE"): self.env["VERIF_TRACE"] = "1"
        self.server = None
    def popen(self, cmd, **kw):
        if self.user is not None: kw.update(user=self.user, group=self.user, extra_groups=[])
        return subprocess.Popen(cmd, env={**self.env, **kw.pop("xenv", {})}, cwd=self.home, start_new_session=True, **kw)
    def boot(self):
        for attempt in range(3):
            p = self.popen(["wineboot", "-i"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            try: p.wait(180)
            except subprocess.TimeoutExpired: os.killpg(p.pid, 9)
            if os.path.isdir(self.prefix + "/drive_c/windows/system32") and os.path.exists(self.prefix + "/.update-timestamp"): break
            self.kill()
        else: raise RuntimeError("wine prefix could not be created")
        self.c = self.prefix + "/drive_c"
        for d in ("z:", "z::", "d:", "d::", "y:"):
            try: os.unlink(self.prefix + "/dosdevices/" + d)
            except OSError: pass
        # keep the server up between processes
        self.server = self.popen(["/usr/lib/wine/wineserver", "-p120"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.mkdir(self.c + "/t"); self.chown(self.c + "/t")
    def chown(self, p):
        if self.user is not None: os.chown(p, self.user, self.user)
    def put(self, src, name):
        dst = self.c + "/t/" + name; shutil.copyfile(src, dst); os.chmod(dst, 0o755); self.chown(dst)
    def run(self, exe, args, timeout, xenv=None):
        """-> (rc or None on timeout, stdout text)"""
        p = self.popen(["wine", "C:\\t\\" + exe] + [str(a) for a in args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, xenv=xenv or {})
        try: out, _ = p.communicate(timeout=timeout); return p.returncode, out.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, 9)
            except OSError: pass
            out, _ = p.communicate(); return None, (out or b"").decode("utf-8", "replace")
    def kill(self):
        for a in (["/usr/lib/wine/wineserver", "-k"],):
            try: self.popen(a, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).wait(20)
            except Exception: pass
    def close(self):
        try: sock = open(self.prefix + "/wineserver").read().strip()
        except OSError: sock = None
        self.kill()
        if sock and re.fullmatch(r"wine-\w{6}", sock): shutil.rmtree("/tmp/" + sock, ignore_errors=True)
        for _ in range(3):
            shutil.rmtree(self.dir, ignore_errors=True)
            if not os.path.exists(self.dir): break
            time.sleep(0.5)

class Sym:
    def __init__(self): self.cache = {}
    def frames(self, exe, pcs):
        """-> list of (function, file) innermost first, inlined frames expanded."""
        miss = [p for p in pcs if (exe, p) not in self.cache]
        if miss:
            # return addresses: look one byte back (except the first pc of a crash, handled by caller)
            r = subprocess.run([ADDR2LINE, "-e", exe, "-f", "-C", "-i", "-a"] + ["0x%x" % (p - 1) for p in miss], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
            cur = None; acc = {}
            lines = r.stdout.splitlines(); i = 0; idx = -1
            while i < len(lines):
                if lines[i].startswith("0x"): idx += 1; acc[miss[idx]] = []; i += 1; continue
                if i + 1 < len(lines): acc[miss[idx]].append((lines[i], lines[i + 1]))
                i += 2
            for p in miss: self.cache[(exe, p)] = acc.get(p, [])
        out = []
        for p in pcs: out += self.cache[(exe, p)]
        return out

def short(fn):
    fn = re.sub(r"\(.*", "", fn); fn = re.sub(r"<[^<>]*>", "", fn); fn = re.sub(r"<[^<>]*>", "", fn)
    return fn.split()[-1] if fn.split() else "?"

def where(sym, exe, text, crash=False):
    """First frame inside the code under test -> 'function' plus a readable stack."""
    pcs = [int(x, 16) for x in text.split()][:40]
    fr = sym.frames(exe, pcs)
    st = []; first = None
    for fn, loc in fr:
        m = re.search(r"/\.build/src/(\S+?):(\d+)|/src/((?:clink|readline|lua|wildmatch|getopt|detours)/\S+?):(\d+)", loc)
        f = (m.group(1) or m.group(3)) if m else None
        if f:
            if not first: first = short(fn)
            st.append("%s (%s:%s)" % (short(fn), f, m.group(2) or m.group(4)))
        elif "/harness/" in loc and "/rt/" not in loc:
            st.append("%s (harness %s)" % (short(fn), os.path.basename(loc)))
            if crash: continue
    return first or "harness", " <- ".join(st[:8 if not os.environ.get("VERIF_DEEP") else 60])

def load_known(pid):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path, encoding="utf-8"):
            m = re.match(r"property=(\S+)\s+key=(\S+)\s*(.*)", l.strip())
            if m and m.group(1) == pid: known.append((m.group(2), m.group(3)))
    return known

class Result:
    def __init__(self):
        self.evals = 0; self.distinct = set(); self.distinct_n = 0; self.stats = {}; self.samples = []
        self.found = {}        # key -> (detail, replay dict)
        self.asserts = {}; self.harness = []; self.timeouts = []; self.done = 0; self.san_total = 0
    def add(self, key, detail, replay):
        if key not in self.found: self.found[key] = (detail, replay)

def parse(res, sym, exe_path, job, rc, out, spec):
    """Feeds one shard's event stream into the result; returns True when the shard finished."""
    done = False; threads = []; base = dict(exe=job["exe"], variant=job["variant"], check=job["check"], seed=job["seed"], first=job["first"], count=job["count"], arg=job.get("arg", ""))
    for l in out.splitlines():
        l = l.rstrip("\r")
        if not l.startswith("@"): continue
        tag, _, rest = l.partition(" ")
        if tag == "@VIOL":
            case, key, detail = re.match(r"(\d+) (\S+) \| ?(.*)", rest).groups()
            res.add(key, detail, dict(base, case=int(case)))
        elif tag == "@STAT":
            k, v = rest.rsplit(" ", 1); res.stats[k] = res.stats.get(k, 0) + int(v)
        elif tag == "@SAMPLE":
            if len(res.samples) < 8: res.samples.append(rest[:600])
        elif tag == "@SAN":
            m = re.match(r"(\S+) (.*?) \|([^|]*)\| ctx=(.*)", rest)
            kind, d, pcs, ctx = m.groups(); res.san_total += 1
            fn, st = where(sym, exe_path, pcs)
            mo = re.match(r"(.* at) ([0-9a-f]+)$", d) if kind == "data-race" else None
            if mo: d = "%s [%s]" % (mo.group(1), where(sym, exe_path, mo.group(2))[1])
            mc = re.search(r"case (\d+)", ctx)
            res.add("san:%s@%s" % (kind, fn), "%s: %s [%s]" % (d, st, ctx[:300]), dict(base, case=int(mc.group(1)) if mc else None))
        elif tag == "@CRASH":
            m = re.match(r"(\S+) (.*?)\|([^|]*)\| ctx=(.*)", rest)
            kind, d, pcs, ctx = m.groups(); fn, st = where(sym, exe_path, pcs, True)
            mc = re.search(r"case (\d+)", ctx)
            res.add("crash:%s@%s" % (kind, fn), "%s %s [%s]" % (d, st, ctx[:300]), dict(base, case=int(mc.group(1)) if mc else None))
        elif tag == "@THREAD": threads.append(" < ".join("%s (%s)" % (short(fn), os.path.basename(loc)) for fn, loc in sym.frames(exe_path, [int(x, 16) for x in rest.strip(" |").split()][:30]) if fn != "??"))
        elif tag == "@STUCK":
            m = re.match(r"\|([^|]*)\| ctx=(.*)", rest); pcs, ctx = m.groups(); fn, st = where(sym, exe_path, pcs, True); mc = re.search(r"case (\d+)", ctx)
            res.add("stuck@%s" % fn, "the main thread waits for ever: %s [%s]; threads: %s" % (st, ctx[:300], " /// ".join(threads)), dict(base, case=int(mc.group(1)) if mc else None))
        elif tag == "@HANG":
            m = re.match(r"ctx=(.*)", rest); ctx = m.group(1) if m else rest
            mc = re.search(r"case (\d+)", ctx)
            res.add("hang:" + job["check"], "no progress within the CPU bound of one case [%s]" % ctx[:300], dict(base, case=int(mc.group(1)) if mc else None))
        elif tag == "@ASSERT":
            m = re.match(r"(\S+?):(\d+) (.*?) \|([^|]*)\| ctx=(.*)", rest)
            if m: k = "%s: %s" % (m.group(1), m.group(3)); res.asserts[k] = res.asserts.get(k, 0) + 1
        elif tag == "@HARNESS": res.harness.append(rest)
        elif tag == "@DONE":
            e, dn, _, _, _ = rest.split(); res.evals += int(e); res.done += 1; done = True; res.distinct_n += int(dn)
    if not done and rc not in (77,) and not any(k.startswith("hang:") for k in res.found):
        if rc is None: return False
        if rc != 77 and "@CRASH" not in out and "@HANG" not in out and "@STUCK" not in out:
            # died without the crash handler seeing it (fast-fail, exit() in the code under test)
            m = None
            res.add("exit:%s" % (rc & 0xff), "process ended with code %s before finishing its cases" % rc, dict(base, case=None))
    return True

def run_check(pid, tier, seed, cases=None, jobs=JOBS, replay=None, keep=False):
    spec = CHECKS[pid]; t0 = time.time(); res = Result(); sym = Sym()
    parts = spec["parts"]
    built = {}; err = None
    for variant in sorted({p["variant"] for p in parts}):
        names = sorted({p["exe"] for p in parts if p["variant"] == variant})
        try: b = vbuild.build(variant, {n: EXES[n] for n in names})
        except RuntimeError as e: print(str(e)[-4000:]); print("cannot decide: the tree does not build with the harness"); return 2
        for n, p in b.items(): built[(variant, n)] = p
    tb = time.time() - t0
    w = Wine()
    try:
        w.boot()
        for (v, n), p in built.items(): w.put(p, f"{v}_{n}.exe")
        for d in ("lua", "app"):        # the scripts are loaded from files (relative to C:\\t)
            src = f"{vbuild.BUILD}/src/clink/{d}/scripts"; dst = f"{w.c}/clink/{d}/scripts"; os.makedirs(dst)
            for f in sorted(os.listdir(src)):
                if f.endswith(".lua"): shutil.copyfile(f"{src}/{f}", f"{dst}/{f}"); os.chmod(f"{dst}/{f}", 0o644)
        todo = []
        if replay:
            rp = json.load(open(replay)); r = rp["replay"]
            first, count = (r["case"], 1) if r.get("case") is not None else (r["first"], r["count"])
            todo.append(dict(exe=r["exe"], variant=r["variant"], check=r["check"], seed=r["seed"], first=first, count=count, arg=r.get("arg", ""), timeout=600, py=None))
        else:
            for p in parts:
                n = cases or p["cases"][0 if tier == "quick" else 1]
                shards = p.get("shards", min(jobs, n)) if tier == "quick" else p.get("tshards", 4 * jobs)
                shards = min(shards, n); per = (n + shards - 1) // shards
                for i in range(shards):
                    c = min(per, n - i * per)
                    if c > 0: todo.append(dict(exe=p["exe"], variant=p["variant"], check=p["check"], seed=seed, first=i * per, count=c, arg=p.get("arg", ""), timeout=p.get("timeout", 240 if tier == "quick" else 3000), py=p.get("py")))
        def one(ij):
            i, job = ij
            sd = f"s{i}"; d = w.c + "/t/" + sd
            if os.path.isdir(d): shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True); w.chown(d)
            if job["py"]: return job, job["py"](w, job, d, "C:\\t\\" + sd)
            exe = f"{job['variant']}_{job['exe']}.exe"
            a = [job["check"], job["seed"], job["first"], job["count"], "C:\\t\\" + sd, job["arg"]]
            rc, out = w.run(exe, a, job["timeout"])
            if rc is None: rc, out = w.run(exe, a, 2 * job["timeout"])   # re-run once before believing a hang
            df = d + "/distinct.bin"; ds = b""
            if os.path.exists(df): ds = open(df, "rb").read()
            shutil.rmtree(d, ignore_errors=True)
            return job, (rc, out, ds)
        with ThreadPoolExecutor(jobs) as ex:
            for job, r in ex.map(one, enumerate(todo)):
                rc, out, ds = r
                if ds: res.distinct.update(struct.unpack("<%dQ" % (len(ds) // 8), ds[:len(ds) // 8 * 8]))
                if os.environ.get("VERIF_RAW"): open(os.environ["VERIF_RAW"], "a").write(f"--- {job}\nrc={rc}\n{out}\n")
                if not parse(res, sym, built[(job["variant"], job["exe"])], job, rc, out, spec):
                    res.timeouts.append(f"{job['check']} cases {job['first']}..{job['first']+job['count']-1}")
    finally:
        w.close()
    if res.harness: print("harness error:", "; ".join(res.harness[:5])); return 2
    known = load_known(pid); new = []; kn = []
    for key, (detail, rp) in sorted(res.found.items()):
        m = [k for k in known if fnmatch.fnmatchcase(key, k[0])]
        (kn if m else new).append((key, detail, rp, m[0][1] if m else ""))
    for key, detail, rp, desc in kn: print(f"KNOWN-FINDING: property={pid} {key}: {desc or detail[:200]}")
    rc = 0
    if not replay and not cases:
        cov = dict(evaluations=res.evals, distinct_nontrivial=len(res.distinct) or res.distinct_n, rule=spec["rule"], samples=res.samples or ["(none)"],
                   events=res.stats, processes_finished=res.done, processes_started=len(todo), sanitizer_reports=res.san_total,
                   failed_assertions=res.asserts, known_findings=[k for k, *_ in kn], violations=[k for k, *_ in new], inconclusive_timeouts=res.timeouts,
                   builds=["%s/%s" % k for k in built], build_s=round(tb, 1))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 1)),
                  open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for key, detail, rp, _ in new[:25]:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        f = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:80]))
        json.dump(dict(property=pid, key=key, detail=detail, replay=rp, how=f"python3 {VERIF}/tools/check.py {pid} --replay {f}"), open(f, "w"), indent=1)
        print(f"  {key}: {detail[:1500]}")
        print(f"VIOLATION property={pid} replay={f}"); rc = 1
    print(f"{pid}: {res.evals} evaluations, {len(res.distinct) or res.distinct_n} distinct, {res.done}/{len(todo)} runs finished, {len(new)} violations, {len(kn)} known, asserts={sum(res.asserts.values())}, {time.time()-t0:.1f}s (build {tb:.1f}s)")
    if os.environ.get("VERIF_SHOW"):
        for k, v in sorted(res.stats.items()): print("   stat", k, v)
        for k, v in sorted(res.asserts.items()): print("   assert", v, k)
        for s in res.samples: print("   sample", s)
    if rc == 0 and res.timeouts: print("inconclusive (timed out twice): " + "; ".join(res.timeouts)); return 2
    if rc == 0 and not replay and (res.evals == 0 or res.done == 0): print("nothing was observed"); return 2
    if rc == 0 and not replay:
        for st in spec.get("must_see", []):
            if not res.stats.get(st) and not cases: print(f"cannot decide: the workload never produced '{st}'"); return 2
    return rc

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))); ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=JOBS); ap.add_argument("--replay")
    a = ap.parse_args()
    sys.stdout.reconfigure(line_buffering=True, errors="replace")
    try: sys.exit(run_check(a.id, a.tier, a.seed, a.cases, a.jobs, a.replay))
    except Exception as e:
        import traceback; traceback.print_exc(); sys.exit(2)
