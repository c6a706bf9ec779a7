#!/usr/bin/env python3
"""Decides one property: sxcheck.py <property> [--tier quick|thorough] [--job substring]

Every run compiles the library's current sources in /repo/genex to LLVM IR, links them with the harnesses of
the property and the runtime model, and lets the symbolic executor (build/sx, deciding with Z3) settle every
assertion for all inputs inside the stated bounds.  Counterexamples are run against a native build of the same
sources before they are reported, and models of completed paths are run natively too and must agree bit for bit.

  exit 0  held on everything explored
  exit 1  a violation that also happens natively; prints  VIOLATION property=<id> replay=<file>
  exit 2  anything else (could not decide, disagreement between the encoding and the native code, build error)
"""
import concurrent.futures as cf, glob, hashlib, importlib.util, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
CPUS = os.cpu_count() or 8
BCF = "-O1 -w -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -gline-tables-only -fno-pic -fno-pie -emit-llvm -D_GLIBCXX_EXTERN_TEMPLATE=0".split()
CXX = ["clang++-18", "-std=c++11"] + BCF
INC = ["-I" + V + "/stubs", "-I" + V + "/harness", "-I" + REPO + "/genex"]
NAT = {  # flavours of the native build
    "plain": ["-O1", "-g", "-ftrivial-auto-var-init=pattern"],
    "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS"],
    "vg": ["-O0", "-g"],
    "tsan": ["-O1", "-g", "-fsanitize=thread"],
}
NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=97:print_stacktrace=0")

class CheckError(Exception): pass
T0 = time.time()
stop = threading.Event()
procs, plock = set(), threading.Lock()

def run(cmd, timeout=None, mem=None, **kw):
    def pre():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if stop.is_set(): raise CheckError("stopped")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, **kw)
    with plock: procs.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out, err = p.communicate()
        return -999, out.decode("utf8", "replace"), err.decode("utf8", "replace")
    finally:
        with plock: procs.discard(p)

def must(cmd, what, **kw):
    rc, o, e = run(cmd, **kw)
    if rc: raise CheckError("%s failed (%d): %s\n%s" % (what, rc, " ".join(cmd)[:400], (e or o)[-3000:]))
    return o

def sources():
    r = []
    for d, _, fs in os.walk(REPO + "/genex"):
        r += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".cc", ".cxx", ".c"))]
    return sorted(r)
def cli_sources(): return sorted(glob.glob(REPO + "/cli/**/*.cpp", recursive=True))
CLI = ["-Dmain=genex_cli_main", "-I" + REPO + "/cli"]
def py_sources(): return sorted(glob.glob(REPO + "/pygenex/**/*.cpp", recursive=True))
PY = ["-I" + V + "/pystub"]
def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for top in ("/genex", "/cli", "/pygenex"):
        for d, ds, fs in os.walk(REPO + top):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

class Build:
    """bitcode is made anew by every run; native objects are kept per content of the sources"""
    def __init__(self, tmp):
        self.tmp, self.locks, self.nat = tmp, {}, {}
        self.pool = cf.ThreadPoolExecutor(CPUS)
    def bitcode(self, cli, py):
        jobs, out = [], []
        for i, s in enumerate(sources()):
            o = "%s/r%d.bc" % (self.tmp, i); out.append(o)
            jobs.append(self.pool.submit(must, CXX + INC + ["-c", s, "-o", o], "compiling " + s))
        self.cli = []
        for i, s in enumerate(cli_sources() if cli else []):
            o = "%s/c%d.bc" % (self.tmp, i); self.cli.append(o)
            jobs.append(self.pool.submit(must, CXX + CLI + INC + ["-c", s, "-o", o], "compiling " + s))
        self.py = []
        for i, s in enumerate(py_sources() if py else []):
            o = "%s/p%d.bc" % (self.tmp, i); self.py.append(o)
            jobs.append(self.pool.submit(must, CXX + PY + INC + ["-c", s, "-o", o], "compiling " + s))
        o = self.tmp + "/runtime.bc"; out.append(o)
        jobs.append(self.pool.submit(must, CXX + ["-fno-builtin"] + INC + ["-c", V + "/runtime/runtime.cpp", "-o", o], "runtime"))
        o = self.tmp + "/libc.bc"; out.append(o)
        jobs.append(self.pool.submit(must, ["clang-18"] + BCF[:-1] + ["-fno-builtin", "-c", V + "/runtime/libc.c", "-o", o], "libc"))
        for j in jobs: j.result()
        self.all = self.tmp + "/all.bc"
        must(["llvm-link-18"] + out + ["-o", self.all], "linking")
    def native_lib(self, flavour, threads=False, py=False):
        key = flavour + ("+thr" if threads else "") + ("+py" if py else "")
        with plock: l = self.locks.setdefault(key, threading.Lock())
        with l:
            if key in self.nat: return self.nat[key]
            fl = NAT[flavour] + (["-I" + V + "/stubs_thr"] if threads else [])
            d = "%s/native/%s-%s" % (B, key, tree_hash(" ".join(fl) + (open(V + "/pystub/boost/python.hpp").read() if py else "")))
            a = d + "/lib.a"
            if not os.path.exists(a):
                t = tempfile.mkdtemp(dir=B)
                try:
                    objs, jobs = [], []
                    for i, s in enumerate(sources()):
                        o = "%s/%d.o" % (t, i); objs.append(o)
                        jobs.append(self.pool.submit(must, ["g++", "-std=c++11", "-w", "-fPIC", "-pthread"] + fl + ["-I" + REPO + "/genex", "-c", s, "-o", o], "native compile of " + s))
                    for i, s in enumerate(cli_sources()):     # the program; its main, renamed, is only linked where a harness calls it
                        o = "%s/c%d.o" % (t, i); objs.append(o)
                        jobs.append(self.pool.submit(must, ["g++", "-std=c++11", "-w", "-fPIC", "-pthread"] + fl + CLI + ["-I" + REPO + "/genex", "-c", s, "-o", o], "native compile of " + s))
                    for i, s in enumerate(py_sources() if py else []):
                        o = "%s/p%d.o" % (t, i); objs.append(o)
                        jobs.append(self.pool.submit(must, ["g++", "-std=c++11", "-w", "-fPIC", "-pthread"] + fl + PY + ["-I" + REPO + "/genex", "-c", s, "-o", o], "native compile of " + s))
                    for j in jobs: j.result()
                    must(["ar", "rcs", t + "/lib.a"] + objs, "ar")
                    os.makedirs(d, exist_ok=True)
                    os.replace(t + "/lib.a", a)
                finally: shutil.rmtree(t, ignore_errors=True)
                olds = sorted(glob.glob(B + "/native/*"), key=os.path.getmtime)
                for o in olds[:-16]: shutil.rmtree(o, ignore_errors=True)
            self.nat[key] = a
            return a
    def harness_native(self, src, defs, flavour, threads, heap, py=False):
        a = self.native_lib(flavour, bool(threads), bool(py))
        o = "%s/n%s-%s" % (self.tmp, flavour, hashlib.sha256((src + " ".join(defs)).encode()).hexdigest()[:12])
        if not os.path.exists(o):
            ex = (["-DSX_COUNT_HEAP"] if heap and flavour == "plain" else []) + (["-DSX_THREADS", "-I" + V + "/stubs_thr"] if threads else [])
            tmpo = o + ".%d" % threading.get_ident()
            must(["g++", "-std=c++11", "-w", "-pthread"] + NAT[flavour] + defs + ex + (PY if py else []) + ["-I" + V + "/harness", "-I" + REPO + "/genex", src, V + "/harness/native.cpp", a, "-lboost_serialization", "-lboost_iostreams", "-lz", "-o", tmpo], "native harness")
            os.replace(tmpo, o)
        return o

def vars_file(path, vs):
    with open(path, "w") as f:
        for k, v in sorted(vs.items()): f.write("%s %d\n" % (k, v))

def native_run(bld, job, vs, flavour, timeout=60):
    exe = bld.harness_native(job["src"], job["defs"], flavour, job.get("threads"), job.get("heap"), job.get("py"))
    d = tempfile.mkdtemp(dir=bld.tmp)
    try:
        os.mkdir(d + "/s"); vars_file(d + "/in", vs)
        cmd = [exe, d + "/in", d + "/s"]
        if flavour == "vg": cmd = ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes"] + cmd
        rc, o, e = run(cmd, timeout=timeout, mem=None if flavour in ("asan", "tsan") else 12, env=NENV, cwd=d)
        return rc, o, e
    finally: shutil.rmtree(d, ignore_errors=True)

def reproduce(bld, job, v):
    """does the counterexample happen natively?  returns (bool, how)"""
    order = {"memory": ["asan", "plain", "vg"], "uninit": ["vg", "plain", "asan"], "arith": ["asan", "plain"], "race": ["tsan", "plain", "asan"]}.get(v["kind"], ["plain", "asan", "vg"])
    how = []
    for fl in order:
        if fl == "vg" and not shutil.which("valgrind"): continue
        rc, o, e = native_run(bld, job, v["vars"], fl, timeout=20 if v["kind"] in ("hang", "deadlock") else 120)
        last = [l for l in o.splitlines() if l.startswith("SX-VIOLATION")]
        msg = last[0] if last else next((l for l in e.splitlines() if "ERROR" in l or "runtime error" in l or "uninit" in l.lower() or "Assertion" in l or "terminate" in l or "==" in l), "")
        how.append("%s: exit %s %s" % (fl, "timeout" if rc == -999 else rc, msg[:200]))
        if rc in (0, 98): continue
        return True, "; ".join(how)
    return False, "; ".join(how)

def run_job(bld, job, deadline, seed, outd):
    n = job["name"]
    d = tempfile.mkdtemp(dir=bld.tmp)
    bc, lk, oj = d + "/h.bc", d + "/l.bc", d + "/out.json"
    must(CXX + (PY if job.get("py") else []) + INC + job["defs"] + ["-c", job["src"], "-o", bc], "compiling harness " + n)
    must(["llvm-link-18", bld.all, bc] + (bld.cli if job.get("cli") else []) + (bld.py if job.get("py") else []) + ["-o", lk], "linking harness " + n)
    secs = min(job["seconds"], deadline - time.time())
    if secs < 2: raise CheckError(n + ": no time left")
    cmd = [B + "/sx", lk, "--out", oj, "--repo", REPO + "/", "--seconds", str(int(secs)), "--seed", str(seed), "--steps", "1000000000000"] + job["args"]
    t = time.time()
    rc, o, e = run(cmd, timeout=secs + 60, mem=job.get("mem", 9))
    shutil.rmtree(bc, ignore_errors=True)
    if not os.path.exists(oj): raise CheckError("%s: symbolic executor ended with %s: %s" % (n, rc, (e or o)[-600:]))
    r = json.load(open(oj)); r["job"] = n; r["wall"] = time.time() - t
    os.unlink(lk)
    if outd: shutil.copy(oj, "%s/%s.json" % (outd, re.sub(r"[^\w.-]", "_", n)))
    if "(error" in o + e: raise CheckError(n + ": solver error: " + (o + e)[-500:])
    r["replayed"] = 0; r["bad"] = []
    for v in r["violations"]:
        ok, how = reproduce(bld, job, v)
        v["reproduced"], v["how"] = ok, how
        if ok: break
    if r["violations"]: return r
    # models of completed paths: native run must agree with the encoding
    for s in r["samples"]:
        rc, o, e = native_run(bld, job, s["in"], "plain")
        obs = [l.split()[1:] for l in o.splitlines() if l.startswith("SX-OBS")]
        want = [list(x) for x in s["obs"]]
        if rc != 0 or obs != want:
            diff = [(a, b) for a, b in zip(obs, want) if a != b][:3]
            r["bad"].append("native run disagrees (exit %s, %d/%d observations, %s) on %s: %s" % (rc, len(obs), len(want), diff, json.dumps(s["in"])[:300], (o + e)[-300:]))
        else: r["replayed"] += 1
    return r

def known(prop):
    """known findings: lines  property=<id> harness=<job name prefix> assert=<message>"""
    r = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"property=(\S+) job=(\S+) assert=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3), m.group(4)))
    return r

def main():
    a = sys.argv[1:]
    prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; keep = None; replay = None
    while len(a) > 1:
        o = a.pop(1)
        if o == "--tier": tier = a.pop(1)
        elif o == "--job": only = a.pop(1)
        elif o == "--keep": keep = a.pop(1); os.makedirs(keep, exist_ok=True)
        elif o == "--replay": replay = a.pop(1)
        else: raise SystemExit("unknown option " + o)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = importlib.util.spec_from_file_location("jobs", V + "/checks/jobs.py"); J = importlib.util.module_from_spec(spec); spec.loader.exec_module(J)
    P = J.PROPS[prop]
    if not os.path.exists(B + "/sx"): must(["make", "-C", V + "/engine", "-j8"], "engine build")
    os.makedirs(B, exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=B)
    os.makedirs(tmp + "/t"); os.environ["TMPDIR"] = NENV["TMPDIR"] = tmp + "/t"      # what killed compilers leave behind goes away with the run
    rc = 2
    try: rc = decide(prop, P, tier, seed, only, keep, replay, tmp)
    except CheckError as e: print("ERROR property=%s %s" % (prop, e))
    finally:
        stop.set()
        with plock:
            for p in list(procs):
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)

def decide(prop, P, tier, seed, only, keep, replay, tmp):
    bld = Build(tmp)
    jobs = []
    for j in P["jobs"]:
        if tier not in j.get("tiers", ("quick", "thorough")): continue
        if only and only not in j["name"]: continue
        j = dict(j); j["src"] = V + "/harness/" + j["src"]; j["defs"] = ["-D%s=%s" % kv for kv in sorted(j.get("defs", {}).items())]
        j["args"] = list(j.get("args", [])); j["seconds"] = j.get("seconds", 600 if tier == "quick" else 3000)
        jobs.append(j)
    if replay:
        r = json.load(open(replay)); j = next(j for j in jobs if j["name"] == r["job"])
        ok, how = reproduce(bld, j, r["violation"]); print(("reproduced: " if ok else "not reproduced: ") + how); return 1 if ok else 0
    deadline = T0 + (840 if tier == "quick" else 3400)
    bld.bitcode(any(j.get("cli") for j in jobs), any(j.get("py") for j in jobs))
    kn = known(prop)
    results, errors, found, knownhit = [], [], None, {}
    bld.pool.submit(bld.native_lib, "plain", False, any(j.get("py") for j in jobs))
    jobs.sort(key=lambda j: -j.get("weight", 1))
    with cf.ThreadPoolExecutor(CPUS) as ex:
        futs = {ex.submit(run_job, bld, j, deadline, seed, keep): j for j in jobs}
        for f in cf.as_completed(futs):
            j = futs[f]
            try: r = f.result()
            except CheckError as e:
                if not found: errors.append(str(e))
                continue
            except Exception as e: errors.append("%s: %r" % (j["name"], e)); continue
            results.append(r)
            unk = []
            for v in r["violations"]:
                k = next((k for k in kn if j["name"].startswith(k[0]) and v["msg"] == k[1]), None)
                if k and v.get("reproduced"): knownhit[k[2]] = True
                else: unk.append(v)
            for v in unk:
                if v.get("reproduced"):
                    rp = "%s/evidence/%s.replay.json" % (V, prop)
                    json.dump({"job": j["name"], "harness": j["src"], "defs": j["defs"], "violation": v}, open(rp, "w"), indent=1)
                    found = (j["name"], v, rp)
                    print("job %s: %s: %s at %s" % (j["name"], v["kind"], v["msg"], v["where"])); print("inputs: " + json.dumps(v["vars"])); print("native: " + v["how"])
                    break
                elif "how" in v: errors.append("%s: %s (%s) at %s is not reproduced natively: %s; inputs %s" % (j["name"], v["msg"], v["kind"], v["where"], v["how"], json.dumps(v["vars"])[:500]))
            if found:
                stop.set()
                with plock:
                    for p in list(procs):
                        try: os.killpg(p.pid, signal.SIGKILL)
                        except OSError: pass
                for g in futs: g.cancel()
                break
            if r["incomplete"] and not r["violations"]: errors.append("%s: not decided: %s" % (j["name"], r["incomplete"]))
            errors += [j["name"] + ": " + b for b in r["bad"]]
            miss = [l for l in j.get("reach", []) if not r["reach"].get(l)]
            if miss and not r["incomplete"] and not r["violations"]: errors.append("%s: vacuous, never reached: %s" % (j["name"], ", ".join(miss)))
    write_evidence(prop, P, tier, seed, results, jobs, found, errors, bld)
    for k in knownhit: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if found:
        print("VIOLATION property=%s replay=%s" % (prop, found[2])); return 1
    if errors:
        for e in errors: print("ERROR property=%s %s" % (prop, e))
        return 2
    q = sum(r["queries"] for r in results)
    print("OK property=%s jobs=%d paths=%d queries=%d wall=%.1fs" % (prop, len(results), sum(r["paths_completed"] for r in results), q, time.time() - T0))
    return 0

def write_evidence(prop, P, tier, seed, results, jobs, found, errors, bld):
    S = lambda k: sum(r[k] for r in results)
    fns = sorted(set(f for r in results for f in r["functions"]))
    try: fns = subprocess.run(["c++filt"], input="\n".join(fns), capture_output=True, text=True).stdout.split("\n")
    except OSError: pass
    samples = [{"job": r["job"], "inputs": s["in"], "observed": dict((k, v) for k, v in s["obs"][:6])} for r in results for s in r["samples"][:1]][:12]
    cov = {
        "states": S("paths_completed") + S("paths_ended") + S("forks"), "transitions": S("steps"), "traces_validated_against_impl": S("replayed"), "samples": samples or [{"none": "no path completed"}],
        "exhaustive": not errors and not found and all(not r["incomplete"] for r in results),
        "meaning": "states: symbolic paths finished, ended and forked; transitions: IR instructions executed symbolically; traces: models of completed paths run natively with bit-identical observations",
        "assertions": S("asserts"), "assertions_needing_solver": S("assert_queries"), "solver_queries": S("queries"), "solver_sat": S("sat"), "solver_unsat": S("unsat"), "solver_unknown": S("unknown"), "solver_s": round(S("solver_s"), 2), "solver_max_query_s": max([r["solver_max_s"] for r in results] or [0]), "merged_paths": S("merges"),
        "bounds": P["bounds"], "jobs": [{"job": r["job"], "paths": r["paths_completed"], "queries": r["queries"], "solver_s": round(r["solver_s"], 2), "wall_s": round(r["wall"], 2), "decided": not r["incomplete"], "reached": r["reach"]} for r in results],
        "functions_encoded": fns, "undecided": errors[:20],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": P.get("assumptions", []) + COMMON, "wall_s": round(time.time() - T0, 2), "violations": 1 if found else 0}
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)

COMMON = [
    "the IR is what clang 18 makes of the sources at -O1; the shipped library is built by another compiler, which the native replays of sampled models use",
    "values range over the stated finite grids; arithmetic on them is exact or tabulated with the machine's own doubles",
    "streams, files, number text, threads, hashing, clock and the Boost archive are the models in /verif/stubs and /verif/runtime; memory never runs out",
]
if __name__ == "__main__": main()
