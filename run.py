#!/usr/bin/env python3
"""Driver: run.py <property> [--tier quick|thorough] [--jobs substr] [--keep] [-v]   |   run.py replay <file>
Builds the current /repo sources to LLVM bitcode, executes the property's harnesses symbolically with symx, replays every
counterexample natively (real code, real C library, sanitizers) and reports only what reproduces."""
import threading, sys, os, json, subprocess, tempfile, shutil, time, re, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VH_REPO", "/repo"); H = os.path.join(HERE, "harness")
CLANG, CLANGXX = "clang", "clang++"
LINK = shutil.which("llvm-link-18") or shutil.which("llvm-link") or "/usr/lib/llvm-18/bin/llvm-link"
OPT = shutil.which("opt-18") or shutil.which("opt") or "/usr/lib/llvm-18/bin/opt"
sys.path.insert(0, HERE)
IO = ["-Dread=vh_read", "-Dwrite=vh_write", "-Drecv=vh_recv", "-Dsend=vh_send", "-Dclose=vh_close", "-Dshutdown=vh_shutdown"]
INC = ["-I" + REPO + "/src", "-I" + REPO + "/include", "-I" + REPO + "/support/client/include", "-iquote" + REPO + "/support/client", "-I" + H, "-I" + HERE]
COMMON = ["-g", "-w", "-DTRAX_STATIC_DEFINE"] + INC
SYM = ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-D__NO_CTYPE", "-emit-llvm"]
NAT = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-DVH_NATIVE_BUILD"]
NATPLAIN = ["-O0", "-DVH_NATIVE_BUILD"]

def sh(cmd, timeout=600, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")

class BuildError(Exception): pass
def engine():
    """builds symx on demand (checks may run in throw-away copies); reuses an up-to-date one"""
    srcs = sorted(glob.glob(HERE + "/engine/*.cpp") + glob.glob(HERE + "/engine/*.h"))
    h = hashlib.sha1(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()[:16]
    exe = HERE + "/build/symx"; stamp = exe + ".stamp"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h: return exe
    rc, o, e = sh(["bash", HERE + "/engine/build.sh", HERE + "/build"])
    if rc: raise BuildError("engine: " + e[-2000:])
    open(stamp, "w").write(h)
    return exe

class Builder:
    def __init__(self, dir): self.d = dir; self.done = {}; self.lk = threading.Lock(); self.locks = {}
    def overlay(self):
        """a copy of the C++ library's configuration header that lets its templates be instantiated in the bitcode"""
        with self.lk:
            o = os.path.join(self.d, "cxx")
            if not os.path.exists(o):
                open(os.path.join(self.d, "cfg.cpp"), "w").write("#include <bits/c++config.h>\n")
                rc, out, e = sh([CLANGXX, "-M", os.path.join(self.d, "cfg.cpp")])
                f = [x for x in out.replace("\\\n", " ").split() if x.endswith("c++config.h")]
                if rc or not f: raise BuildError("c++config.h: " + e[-500:])
                t = re.sub(r"(#\s*define _GLIBCXX_EXTERN_TEMPLATE) 1", r"\1 0", open(f[0]).read())
                os.makedirs(o + ".t/bits"); open(o + ".t/bits/c++config.h", "w").write(t); os.rename(o + ".t", o)
        return o
    def cc(self, src, out, flags):
        cxx = src.endswith(".cpp")
        if cxx and "-emit-llvm" in flags: flags = ["-I" + H + "/cxx", "-I" + self.overlay()] + flags
        rc, o, e = sh([CLANGXX if cxx else CLANG] + (["-std=c++17"] if cxx else []) + flags + ["-c", src, "-o", out])
        if rc: raise BuildError(src + ": " + e[-1500:])
        return out
    def sources(self, kind):
        if kind == "none": return []
        s = sorted(glob.glob(REPO + "/src/*.c"))
        if kind == "cpp": s.append(REPO + "/src/traxpp.cpp")
        return s
    def unit(self, src, flags, tag, ext):
        key = (src, tag)
        with self.lk: lk = self.locks.setdefault(key, threading.Lock())
        with lk:
          if key not in self.done:
            out = os.path.join(self.d, hashlib.sha1(("|".join(flags) + src + tag).encode()).hexdigest()[:12] + "_" + os.path.basename(src) + ext)
            self.done[key] = self.cc(src, out, flags)
        return self.done[key]
    def renamed(self, obj, names):
        """native objects call the harness's stand-ins vh_x instead of the system's x"""
        if not names: return obj
        out = obj[:-2] + "_w.o"
        if out not in self.done:
            rc, o, e = sh(["objcopy"] + ["--redefine-sym=%s=vho_%s" % (n, n) for n in names] + [obj, out])
            if rc: raise BuildError("objcopy: " + e[-1500:])
            self.done[out] = out
        return out
    def bitcode(self, job):
        fl = COMMON + job.get("defs", []); units = []
        for s in self.sources(job.get("src", "core")): units.append(self.unit(s, SYM + fl + (IO if job.get("io", True) and s.endswith(".c") else []), "sym" + str(job.get("io", True)) + str(job.get("defs", [])), ".bc"))
        for s in job.get("extra", []): units.append(self.unit(REPO + "/" + s if not s.startswith("/") else s, SYM + fl, "symx" + str(job.get("defs", [])), ".bc"))
        for s in job.get("hextra", []): units.append(self.unit(H + "/" + s, SYM + fl, "symx" + str(job.get("defs", [])), ".bc"))
        units.append(self.unit(H + "/" + job["h"], SYM + fl, "symh" + str(job.get("defs", [])), ".bc"))
        units.append(self.unit(H + "/models.c", SYM + ["-g", "-w", "-I" + H], "models", ".bc"))
        if job["h"].endswith(".cpp"): units.append(self.unit(H + "/models_cpp.cpp", SYM + ["-g", "-w", "-I" + H], "models", ".bc"))
        out = os.path.join(self.d, hashlib.sha1("|".join(units).encode()).hexdigest()[:12] + ".bc")
        if out not in self.done:
            rc, o, e = sh([LINK] + units + ["-o", out + ".l"])
            if rc: raise BuildError("link: " + e[-1500:])
            rc, o, e = sh([OPT, "-passes=mem2reg,instsimplify,simplifycfg", out + ".l", "-o", out])
            if rc: raise BuildError("opt: " + e[-1500:])
            self.done[out] = out
        return out
    def native(self, job, plain=False):
        mode = NATPLAIN if plain else NAT; tag = "p" if plain else "a"
        fl = mode + COMMON + job.get("defs", []); units = []
        for s in self.sources(job.get("src", "core")): units.append(self.renamed(self.unit(s, fl + (IO if job.get("io", True) and s.endswith(".c") else []), "nat" + tag + str(job.get("io", True)) + str(job.get("defs", [])), ".o"), job.get("wrapc", [])))
        for s in job.get("extra", []): units.append(self.renamed(self.unit(REPO + "/" + s if not s.startswith("/") else s, fl, "natx" + tag + str(job.get("defs", [])), ".o"), job.get("wrap", [])))
        for s in job.get("hextra", []): units.append(self.unit(H + "/" + s, fl, "natx" + tag + str(job.get("defs", [])), ".o"))
        units.append(self.unit(H + "/" + job["h"], fl, "nath" + tag + str(job.get("defs", [])), ".o"))
        units.append(self.unit(H + "/vh_native.c", mode + ["-g", "-w", "-I" + H], "vhn" + tag, ".o"))
        out = os.path.join(self.d, hashlib.sha1("|".join(units).encode()).hexdigest()[:12] + ".exe")
        if out not in self.done:
            cxx = any(u.endswith(".cpp.o") for u in units)
            rc, o, e = sh([CLANGXX if cxx else CLANG] + ([] if plain else ["-fsanitize=address"]) + units + ["-lm", "-lpthread", "-o", out])
            if rc: raise BuildError("native link: " + e[-1500:])
            self.done[out] = out
        return out

def write_replay(path, job, params, inputs, note=""):
    with open(path, "w") as f:
        f.write("# counterexample for %s\n# replay: %s/run.py replay %s\n" % (job.get("prop"), HERE, path))
        for l in note.splitlines(): f.write("# " + l + "\n")
        f.write("job %s\n" % json.dumps({k: v for k, v in job.items() if k in ("h", "src", "io", "defs", "extra", "hextra", "wrap", "wrapc", "prop")}))
        for k, v in params.items(): f.write("param %s %d\n" % (k, v))
        for n, v in inputs: f.write("input %s %d\n" % (re.sub(r"\s", "_", n) or "x", v))

def run_native(exe, replay, kind="", timeout=20):
    env = dict(os.environ, VH_REPLAY=replay, ASAN_OPTIONS="detect_leaks=0:redzone=512:max_redzone=2048:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:strict_string_checks=0", LC_ALL="C")
    env.pop("TRAX_SOCKET", None)
    cmd = [exe]
    if kind == "valgrind": cmd = ["valgrind", "-q", "--error-exitcode=98", "--undef-value-errors=yes", exe]; timeout *= 3
    rc, o, e = sh(cmd, timeout=timeout, env=env, cwd=os.path.dirname(exe))
    return rc, (e + o)[-1500:]

def confirmed(kind, rc):
    if rc in (0, 77, 78, 3): return False
    if rc == 124: return kind in ("steps", "model", "assert", "abort")
    return True

def load_findings():
    out = []; p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m: out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out

VENV = "/opt/veriftools/pyvenv/bin/python3"
def pycmd(): return [VENV if os.path.exists(VENV) else shutil.which("python3-vt") or sys.executable, HERE + "/py/y.py", REPO]
def main_py(prop, tier, spec, seed, only, verbose):
    """checks of the Python bindings: the package itself is executed on symbolic values (py/)"""
    import checks
    t0 = time.time(); d = tempfile.mkdtemp(prefix="vh_"); rs = []; notes = []; Q = dict(queries=0, solver_s=0.0, forks=0, asserts=0, unknown=0); fns = []
    names = [n for n in spec["scenarios"] if not only or only in n]
    def one(n):
        o = os.path.join(d, n + ".json"); rc, out, err = sh(pycmd() + [prop, o, tier, n], timeout=700, cwd=d)
        try: return n, json.load(open(o)), ""
        except Exception: return n, None, "rc=%d %s" % (rc, err.strip()[-400:])
    try:
        with ThreadPoolExecutor(8) as ex: got = list(ex.map(one, names))
    finally: shutil.rmtree(d, ignore_errors=True)
    viol = []; unconf = []
    for n, r, e in got:
        if r is None or not r["results"]: notes.append(n + ": not run " + e); continue
        for k in Q: Q[k] += r[k]
        fns = r["functions"]; x = r["results"][0]; rs.append(x)
        for b in x["bad"]:
            if b["replay"] and b["replay"] != "cut":
                if any(v[0] == n for v in viol): continue
                p = HERE + "/replays/%s-%d.txt" % (prop, len(viol) + 1); json.dump({"prop": prop, "scenario": n, "values": b["values"], "what": b["replay"]}, open(p, "w")); viol.append((n, p, b["replay"]))
            else: unconf.append("%s: %s" % (n, b["msg"]))
    known = [(v, f) for v in viol for f in load_findings() if f[0] == prop and re.search(f[1], "%s|%s" % (v[0], v[2].replace(" ", "_")))]
    viol = [v for v in viol if not any(v is k for k, _ in known)]
    for k, f in known: os.remove(k[1]); print("KNOWN-FINDING: property=%s %s" % (prop, f[2]))
    paths = sum(x["paths"] for x in rs); comp = sum(1 for x in rs if x["complete"])
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking",
      "coverage": {"states": paths, "transitions": Q["forks"], "traces_validated_against_impl": sum(1 for x in rs if x["wit"] is not None), "samples": [{"job": x["name"], "inputs": x["wit"][:20]} for x in rs if x["wit"]][:6] or [{"job": "none"}],
        "explanation": "states = symbolic paths through the Python code explored to the end, transitions = forks decided by z3", "exhaustive": comp == len(names), "jobs": len(names), "jobs_complete": comp, "bounds": spec["bounds"], "outside": spec["outside"],
        "functions_encoded": fns, "assertions_checked": Q["asserts"], "queries_discharged": Q["queries"], "solver_unknown": Q["unknown"], "solver_s": round(Q["solver_s"], 3), "incomplete": [x["name"] for x in rs if not x["complete"]], "unconfirmed_counterexamples": unconf, "notes": notes},
      "assumptions": spec["assume"], "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s: %d scenarios (%d complete), %d paths, %d queries (%.1fs), %.1fs" % (prop, len(names), comp, paths, Q["queries"], Q["solver_s"], time.time() - t0))
    for x in rs:
        if verbose or not x["complete"]: print("   %-30s complete=%s paths=%d wall=%.1f" % (x["name"], x["complete"], x["paths"], x["wall"]))
    for u in unconf: print("  unconfirmed: " + u)
    for n in notes: print("  note: " + n)
    for n, p, w in viol: print("  %s: %s" % (n, w))
    for n, p, w in viol[:1] if not verbose else viol: print("VIOLATION property=%s replay=%s" % (prop, p))
    sys.stdout.flush(); sys.exit(1 if viol else 2 if not rs else 0)

def main():
    if sys.argv[1] == "replay" and open(sys.argv[2]).read(1) == "{":
        p = subprocess.run(pycmd() + ["replay", os.path.abspath(sys.argv[2]), "quick"]); sys.exit(p.returncode)
    if sys.argv[1] == "replay":
        job = None
        for l in open(sys.argv[2]):
            if l.startswith("job "): job = json.loads(l[4:])
        d = tempfile.mkdtemp(prefix="vh_")
        try:
            exe = Builder(d).native(job); rc, txt = run_native(exe, os.path.abspath(sys.argv[2])); print(txt); print("exit", rc); sys.exit(0 if rc == 0 else 1)
        finally: shutil.rmtree(d, ignore_errors=True)
    if sys.argv[1] == "setup":
        engine(); print("engine ready"); return
    import checks
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); a = sys.argv[2:]; verbose = "-v" in a; only = None; keep = "--keep" in a
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--jobs" in a: only = a[a.index("--jobs") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); spec = checks.CHECKS[prop]; t0 = time.time()
    total = {"quick": 400, "thorough": 800}.get(tier, 400)
    os.makedirs(HERE + "/evidence", exist_ok=True); os.makedirs(HERE + "/replays", exist_ok=True)
    for f in glob.glob(HERE + "/replays/%s-*" % prop): os.remove(f)
    if "scenarios" in spec: main_py(prop, tier, spec, seed, only, verbose)
    d = tempfile.mkdtemp(prefix="vh_"); res = []; violations = []; known = []; unconf = []; notes = []; broken = False
    try:
        jobs = []
        for j in spec["jobs"]:
            for i, ps in enumerate(j.get(tier, j.get("quick", [{}]))):
                if ps is None: continue
                j2 = dict(j); j2["prop"] = prop; j2["params"] = ps; jobs.append(j2)
        if only: jobs = [j for j in jobs if only in j["h"] + " " + json.dumps(j["params"])]
        b = Builder(d); native_ok = {}
        with ThreadPoolExecutor(8) as ex:
            fe = ex.submit(engine)
            # compile all units in parallel first
            seen = {}; futs = []
            for j in jobs:
                key = json.dumps([j["h"], j.get("src"), j.get("io", True), j.get("defs"), j.get("extra"), j.get("hextra")])
                if key in seen: continue
                seen[key] = j
            # shared repository units are compiled once, then harness units
            def warm(args):
                s, nat, j = args
                fl = COMMON + j.get("defs", [])
                if nat: b.unit(s, NAT + fl + (IO if j.get("io", True) and s.endswith(".c") else []), "nat" + "a" + str(j.get("io", True)) + str(j.get("defs", [])), ".o")
                else: b.unit(s, SYM + fl + (IO if j.get("io", True) and s.endswith(".c") else []), "sym" + str(j.get("io", True)) + str(j.get("defs", [])), ".bc")
            w = {}
            for j in seen.values():
                for s in b.sources(j.get("src", "core")):
                    for nat in (False, True): w[(s, nat, str(j.get("io", True)), str(j.get("defs", [])))] = (s, nat, j)
            list(ex.map(warm, w.values()))
            bcs = dict(zip(seen.keys(), ex.map(lambda j: b.bitcode(j), seen.values())))
            symx = fe.result()
            nats = {k: ex.submit(lambda j=j: b.native(j)) for k, j in seen.items()}
            def runjob(ij):
                i, j = ij
                key = json.dumps([j["h"], j.get("src"), j.get("io", True), j.get("defs"), j.get("extra"), j.get("hextra")])
                left = total - (time.time() - t0)
                if left < 3: return j, key, None
                mt = min(j.get("time", {"quick": 60, "thorough": 300}[tier]), left)
                out = os.path.join(d, "o%d.json" % i)
                cmd = [symx, bcs[key], "--out", out, "--max-time", str(mt), "--max-steps", str(j.get("steps", 3000000)), "--solver-timeout", str(j.get("sto", 20000)), "--witness", str(j.get("wit", 4)), "--seed", str(seed + i), "--max-errors", "6"]
                for k, v in j["params"].items(): cmd += ["--param", "%s=%d" % (k, v)]
                rc, o, e = sh(cmd, timeout=mt + 120)
                try: r = json.load(open(out))
                except Exception: r = {"crash": (rc, e[-500:])}
                return j, key, r
            order = sorted(enumerate(jobs), key=lambda x: -x[1].get("prio", 0))
            for j, key, r in ex.map(runjob, order):
                lab = j["h"] + " " + " ".join("%s=%s" % kv for kv in j["params"].items())
                if r is None: notes.append(lab + ": not run (time budget)"); continue
                if "crash" in r: notes.append(lab + ": engine failure %s" % (r["crash"],)); continue
                res.append((lab, j, key, r))
            # replay witnesses and counterexamples
            validated = 0; wit_bad = []
            def wit(args):
                lab, j, key, n, w = args
                p = os.path.join(d, "w_%s_%d.txt" % (hashlib.sha1(lab.encode()).hexdigest()[:8], n)); write_replay(p, j, j["params"], w)
                rc, txt = run_native(nats[key].result(), p)
                return lab, n, w, rc, txt
            wl = [(lab, j, key, n, w) for lab, j, key, r in res for n, w in enumerate(r["witnesses"])]
            for lab, n, w, rc, txt in ex.map(wit, wl):
                if rc == 0: validated += 1
                else: wit_bad.append((lab, rc, txt.strip().splitlines()[:6], w))
            nv = 0; vioseen = {}
            for lab, j, key, r in res:
                for e in r["errors"]:
                    sig = (j["h"], e["kind"], e["msg"], e["loc"])
                    if vioseen.get(sig, 0) >= 1: continue
                    nv += 1; p = HERE + "/replays/%s-%d.txt" % (prop, nv)
                    note = "%s: %s at %s\n%s\n%s" % (e["kind"], e["msg"], e["loc"], e["stack"], lab)
                    write_replay(p, j, j["params"], e["inputs"], note)
                    try:
                        rc, txt = run_native(nats[key].result(), p)
                        ok = confirmed(e["kind"], rc)
                        if not ok and rc != 77 and e["kind"] in ("uninit", "assert-uninit", "memory"):
                            rc, txt = run_native(b.native(j, plain=True), p, "valgrind"); ok = confirmed(e["kind"], rc)
                    except BuildError as be: ok = False; txt = str(be); rc = -1
                    desc = "%s: %s at %s (%s)" % (e["kind"], e["msg"], e["loc"], lab)
                    if not ok: unconf.append(desc + " rc=%d %s" % (rc, txt.strip()[-200:])); os.remove(p); continue
                    vioseen[sig] = vioseen.get(sig, 0) + 1
                    kf = [f for f in load_findings() if f[0] == prop and re.search(f[1], "%s|%s|%s|%s|%s" % (j["h"], e["kind"], e["msg"].replace(" ", "_"), e["stack"].replace(" ", ""), ",".join("%s=%d" % x for x in e["inputs"])))]
                    if kf: known.append(kf[0][2] + " [" + desc + "]"); os.remove(p)
                    else: violations.append((p, desc, txt))
    except BuildError as be:
        # the tree (or a harness against it) does not build: nothing can be decided, and nothing is claimed
        notes.append("build failed: " + str(be)); print("BUILD-FAILED", str(be)[:600]); broken = True; validated = 0; wit_bad = []
    finally:
        if keep: print("kept", d)
        else: shutil.rmtree(d, ignore_errors=True)
    R = [r for _, _, _, r in res]; S = lambda k: sum(r[k] for r in R)
    fn = {}
    for r in R:
        for n, f, hit, tot in r["functions"]:
            if "/repo" in f or f.startswith(REPO) or not f.startswith("/"):
                o = fn.get(n, (f, 0, tot)); fn[n] = (f, max(o[1], hit), tot)
    fnr = {n: v for n, v in fn.items() if v[0].startswith(REPO) or v[0].startswith("/repo")}
    incomplete = {}
    for lab, j, key, r in res:
        for k, v in r["incomplete"].items(): incomplete.setdefault(k, []).append(lab)
    missing = []
    for lab, j, key, r in res:
        for c in j.get("covers", []):
            if c not in r["covers"]: missing.append(lab + ": " + c)
    ncomplete = sum(1 for r in R if r["complete"])
    samples = [{"job": lab, "inputs": r["witnesses"][0][:40]} for lab, j, key, r in res if r["witnesses"]][:6] or [{"job": "none"}]
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking",
      "coverage": {"states": S("paths"), "transitions": S("forks"), "traces_validated_against_impl": validated, "samples": samples,
        "explanation": "states = symbolic execution paths explored to the end, transitions = symbolic branch forks; every path stands for all inputs satisfying its path condition within the bounds",
        "exhaustive": bool(R) and ncomplete == len(R) and len(R) == len(jobs), "jobs": len(jobs), "jobs_complete": ncomplete, "bounds": spec.get("bounds", ""), "outside": spec.get("outside", ""),
        "functions_encoded": {n: "%d/%d blocks" % (v[1], v[2]) for n, v in sorted(fnr.items())}, "instructions": S("steps"),
        "assertions_checked": S("asserts"), "assertions_needing_decision": S("assert_queries"), "memory_checks": S("mem_checks"),
        "queries_discharged": S("queries"), "decided_by_smt": S("smt_queries"), "decided_by_byte_domains": S("domain_decided"), "cache_hits": S("cache_hits"), "solver_unknown": S("unknown"), "model_mismatch": S("mismatch"), "solver_s": round(S("solver_s"), 3),
        "reachability_witnesses": sorted({c for r in R for c in r["covers"]}), "missing_reachability": missing, "incomplete": {k: v[:6] for k, v in incomplete.items()},
        "unconfirmed_counterexamples": unconf, "witness_mismatches": [[x[0], x[1], x[2]] for x in wit_bad][:5], "notes": notes},
      "assumptions": spec.get("assume", []) + checks.ASSUME, "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    for k in sorted(set(known)): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s: %d jobs (%d complete), %d paths, %d queries (%d SMT, %.1fs), %d witnesses replayed, %d functions, %.1fs" % (prop, len(jobs), ncomplete, S("paths"), S("queries"), S("smt_queries"), S("solver_s"), validated, len(fnr), time.time() - t0))
    for k, v in incomplete.items(): print("  incomplete: %s (%d jobs, e.g. %s)" % (k, len(v), v[0]))
    for m in missing: print("  not reached: " + m)
    for u in unconf: print("  unconfirmed: " + u)
    for w in wit_bad[:4]: print("  witness mismatch:", w[0], w[1], w[2])
    for n in notes: print("  note: " + n)
    if verbose:
        for lab, j, key, r in res: print("   %-70s complete=%s paths=%d smt=%d wall=%.1f" % (lab, r["complete"], r["paths"], r["smt_queries"], r["wall_s"]))
    for p, desc, txt in violations:
        print("  " + desc); 
        if verbose: print("     " + "\n     ".join(txt.strip().splitlines()[:8]))
    for p, desc, txt in violations[:1] if not verbose else violations: print("VIOLATION property=%s replay=%s" % (prop, p))
    sys.stdout.flush(); sys.exit(1 if violations else 2 if broken or not res else 0)
main()
