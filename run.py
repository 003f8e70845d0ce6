#!/usr/bin/env python3
"""Run the checks of one property:  run.py ID   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
   build the executor:              run.py --setup
   replay a recorded violation:     run.py --replay FILE
Every run compiles /repo's current sources to LLVM IR, links them with the harnesses of the property,
lets engine/vse decide every assertion with z3, and replays what it found against natively compiled code."""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob, hashlib, fcntl
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"
CLANG = LLVM + "clang"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUILD = os.path.join(V, "build")
INC = ["-I" + V + "/rt", "-I" + V + "/rt/inc", "-I" + REPO, "-I" + REPO + "/util", "-I" + REPO + "/lib", "-I" + REPO + "/lib/include"]
CF = ["-fno-pic", "-fno-pie", "-O1", "-fno-builtin", "-fno-inline", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off",
      "-fno-strict-aliasing", "-fno-discard-value-names", "-g", "-D_GNU_SOURCE", "-D__NO_CTYPE", "-DSCHEMA_DATADIR=\"/nonexistent\"", "-w"]
UB = {"ub": "signed-integer-overflow,integer-divide-by-zero,shift"}
NJOBS = 8
FSDEF = ["-D%s=vp_%s" % (x, x) for x in "fopen open_memstream fclose fwrite fputs fputc fflush ftello ftell ferror putc fread feof fsync open close fdopen fstat mkstemp mmap munmap madvise remove unlink rename access chmod realpath opendir readdir closedir getenv".split()]


class Err(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
    return p.returncode, p.stdout.decode(errors="replace")


def must(cmd):
    rc, out = sh(cmd)
    if rc:
        raise Err("command failed: " + " ".join(cmd) + "\n" + out[-3000:])
    return out


def setup():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in sorted(glob.glob(V + "/engine/*")):
        h.update(open(f, "rb").read())
    stamp = BUILD + "/vse." + h.hexdigest()[:16]
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (os.path.exists(stamp) and os.path.exists(BUILD + "/vse")):
            must(["bash", V + "/engine/build.sh", BUILD])
            open(stamp, "w").close()


class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-2]
        src = open(path).read()
        self.cfgs = []
        self.opt = {"time": 240, "preempt": 2, "inst": 3000000, "query": 20000, "samples": 12}
        self.flags = set()
        self.excl = []
        self.bounds = []
        self.outside = []
        self.defs = []
        self.finding = None
        for ln in src.splitlines():
            m = re.match(r"//@\s*(\w+)\s*(.*)", ln)
            if not m:
                continue
            k, v = m.group(1), m.group(2).strip()
            if k == "cfg":
                w = v.split()
                if w[0] in ("both", TIER):
                    self.cfgs.append((w[1], w[2:]))
            elif k in self.opt:
                self.opt[k] = int(v)
            elif k in ("ub", "threads", "lib", "nolabels", "override", "noub", "fs", "pcre"):
                self.flags.add(k)
            elif k == "excl":
                self.excl += v.split()
            elif k == "bounds":
                self.bounds.append(v)
            elif k == "outside":
                self.outside.append(v)
            elif k == "def":
                self.defs += v.split()
            elif k == "finding":
                self.finding = v
            else:
                raise Err("bad directive in " + path + ": " + ln)
        self.labels = set(re.findall(r'vp_reach\("([^"]*)"\)', src))


def instrument(ll):
    """a scheduling point before every atomic access (the native build's counterpart of the executor's)"""
    out = []
    used = False
    for ln in ll.splitlines():
        s = ln.strip()
        if re.match(r"(%\S+ = )?((load|store) atomic|atomicrmw|cmpxchg)\b", s):
            out.append("  call void @vp_yield()")
            used = True
            s2 = ln
            out.append(s2)
        else:
            out.append(ln)
    t = "\n".join(out) + "\n"
    if used and "declare void @vp_yield" not in t:
        t += "declare void @vp_yield()\n"
    return t


class Ctx:
    """compiled objects of this run, by (file, flags)"""
    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix="vse.")
        self.pool = ThreadPoolExecutor(NJOBS)
        self.memo = {}
        self.lk = __import__("threading").Lock()

    def get(self, key, fn):
        with self.lk:
            if key not in self.memo:
                self.memo[key] = self.pool.submit(fn)
            return self.memo[key]

    def sources(self, h):
        s = sorted(glob.glob(REPO + "/util/*.c"))
        if "lib" in h.flags:
            s += sorted(glob.glob(REPO + "/lib/*.c"))
        return [f for f in s if os.path.relpath(f, REPO) not in h.excl]

    def bc(self, f, extra, threads, ub, native):
        key = (f, tuple(extra), threads, ub, native)

        def go():
            o = os.path.join(self.tmp, hashlib.md5(repr(key).encode()).hexdigest() + (".o" if native else ".bc"))
            fl = [x for x in CF]
            if native:
                fl = [x for x in fl if x not in ("-D__NO_CTYPE",)]
                fl.append("-fsanitize=address")
            if ub:
                fl += ["-fsanitize=" + UB["ub"], "-fsanitize-trap=" + UB["ub"]] if not native else ["-fsanitize=" + UB["ub"], "-fno-sanitize-recover=" + UB["ub"]]
            if threads and native:
                fl += ["-Dpthread_%s=vpn_%s" % (x, x) for x in ("mutex_init", "mutex_destroy", "mutex_lock", "mutex_trylock", "mutex_unlock", "cond_init", "cond_destroy", "cond_wait", "cond_signal", "cond_broadcast")]
            if threads and native:  # the executor itself has a scheduling point at every atomic access
                ll = o + ".ll"
                must([CLANG] + fl + INC + extra + ["-S", "-emit-llvm", f, "-o", ll])
                t = instrument(open(ll).read())
                open(ll, "w").write(t)
                must([CLANG, "-O1", "-w", "-c", ll, "-o", o])
            else:
                must([CLANG] + fl + INC + extra + ["-c"] + ([] if native else ["-emit-llvm"]) + [f, "-o", o])
            return o
        return self.get(key, go)

    def prepare(self, h, cfg, native):
        """engine: linked bitcode; native: executable"""
        thr = "threads" in h.flags
        ub = "ub" in h.flags
        fs_ = "fs" in h.flags
        extra = ["-D" + d for d in h.defs] + (FSDEF if fs_ else [])
        hf = self.bc(h.path, extra + [x for x in cfg if x[0] == "-"] + (["-DVP_NATIVE"] if native else []), thr, False, native)
        fs = [self.bc(f, extra, thr, ub, native) for f in self.sources(h)]
        if fs_:
            fs.append(self.bc(V + "/rt/vfs.c", [], False, False, native))
        tag = hashlib.md5((h.path + repr(cfg) + str(native)).encode()).hexdigest()
        if native:
            ov = ["-Wl,--allow-multiple-definition"] if "override" in h.flags else []
            nat = self.bc(V + "/rt/native.c", ["-DVP_ENTRY=harness"], False, False, True)
            o = os.path.join(self.tmp, tag + ".exe")
            must([CLANG, "-no-pie", "-fsanitize=address"] + (["-fsanitize=" + UB["ub"]] if ub else []) + ov + ["-Wl,--unresolved-symbols=ignore-all", hf.result(), nat.result()] + [x.result() for x in fs] + ["-lm", "-lpthread", "-ldl"] + (["-lpcre2-8"] if "pcre" in h.flags else []) + ["-o", o])
            return o
        mod = self.bc(V + "/rt/models.c", [], False, False, False)
        o = os.path.join(self.tmp, tag + ".bc")
        if "override" in h.flags:
            cmd = [LLVM + "llvm-link"] + [x.result() for x in fs] + [mod.result(), "--override=" + hf.result(), "-o", o]
        else:
            cmd = [LLVM + "llvm-link", hf.result()] + [x.result() for x in fs] + [mod.result(), "-o", o]
        must(cmd)
        return o

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.tmp, ignore_errors=True)


def pre(h, cfg):
    return int(next((d[9:] for d in cfg if d.startswith("@preempt=")), h.opt["preempt"]))


def engine(h, bc, cfgname, tmp, preempt):
    out = os.path.join(tmp, h.name + "." + cfgname + ".json")
    cmd = [BUILD + "/vse", bc, "harness", "--time", str(h.opt["time"]), "--inst", str(h.opt["inst"]), "--query-ms", str(h.opt["query"]),
           "--preempt", str(preempt), "--samples", str(h.opt["samples"]), "--seed", str(SEED), "--src", REPO + "/", "--out", out]
    lim = "ulimit -v %d; exec \"$@\"" % (12 * 1024 * 1024)
    try:
        rc, log = sh(["bash", "-c", lim, "x"] + cmd, timeout=h.opt["time"] + 60)
    except subprocess.TimeoutExpired:
        return {"status": "incomplete", "why": "engine timeout"}
    try:
        r = json.load(open(out))
    except Exception as e:
        return {"status": "error", "why": "no result (exit %s): %s" % (rc, log[-800:])}
    if log.strip():
        r["log"] = log[-500:]
    return r


def write_inputs(path, inputs, sched, preempt):
    with open(path, "w") as f:
        f.write("P %d\n" % preempt)
        for i in inputs:
            f.write("I %s %s\n" % (i["name"].replace(" ", "_") or "x", i["hex"] or "-"))
        for s in sched:
            f.write("S %d\n" % s)


def native(exe, inputs, sched, preempt, tmp, fill=None, timeout=20):
    f = tempfile.mktemp(dir=tmp)
    write_inputs(f, inputs, sched, preempt)
    env = dict(os.environ)
    env["VP_INPUTS"] = f
    ao = "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1"
    if fill is not None:
        ao += ":malloc_fill_byte=%d:max_malloc_fill_size=1000000" % fill
    env["ASAN_OPTIONS"] = ao
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=78"
    try:
        p = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=tmp)
        out, err, rc = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), p.returncode
    except subprocess.TimeoutExpired:
        out, err, rc = "", "", "timeout"
    os.unlink(f)
    r = {"rc": rc, "fail": None, "done": False, "obs": [], "reach": set(), "diverge": None, "err": err}
    for ln in out.splitlines():
        if ln.startswith("VPFAIL "):
            r["fail"] = ln[7:]
        elif ln.startswith("VPDONE"):
            r["done"] = True
        elif ln.startswith("VPOBS "):
            r["obs"].append(int(ln[6:]))
        elif ln.startswith("VPREACH "):
            r["reach"].add(ln[8:])
        elif ln.startswith("VPDIVERGE"):
            r["diverge"] = ln[10:]
    if r["fail"] is None:
        if "AddressSanitizer" in err:
            m = re.search(r"AddressSanitizer: (.*)", err)
            r["fail"] = "AddressSanitizer: " + m.group(1)[:150]
        elif "runtime error" in err:
            r["fail"] = re.search(r"runtime error: (.*)", err).group(1)[:150]
        elif rc == "timeout":
            r["fail"] = "does not terminate within %d s" % timeout
        elif isinstance(rc, int) and rc < 0:
            r["fail"] = "killed by signal %d" % -rc
        elif not r["done"] and not r["diverge"]:
            r["fail"] = "ended with status %s" % rc
    return r


def confirm(exe, v, preempt, tmp):
    """does the counterexample fail natively?  (memory content the program never wrote is tried with several fills)"""
    last = None
    for fill in (None, 0, 255, 1, 65):
        r = native(exe, v["inputs"], v.get("sched", []), preempt, tmp, fill)
        last = r
        if r["fail"]:
            return True, r
    return False, last


def replay(path):
    r = json.load(open(path))
    setup()
    global TIER
    TIER = r.get("tier", "quick")
    c = Ctx()
    try:
        h = Harness(os.path.join(V, "harness", r["harness"] + ".c"))
        exe = c.prepare(h, r["cfg"], True)
        ok, res = confirm(exe, r, pre(h, r["cfg"]), c.tmp)
        print("replay of %s: %s" % (path, ("fails: " + res["fail"]) if ok else "does not fail"))
        print(res["err"][-3000:])
        return 1 if ok else 0
    finally:
        c.close()


def findings():
    try:
        return json.load(open(V + "/known_findings.json"))
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def norm(msg):
    return re.sub(r" \([^()]*:\d+\)$", "", msg)


def main(pid):
    t0 = time.time()
    setup()
    known = findings()["findings"]
    hs = [Harness(p) for p in sorted(glob.glob(V + "/harness/" + pid + "_*.c")) if os.environ.get("VP_ONLY", "") in p]
    if not hs:
        print("no harness for " + pid)
        return 2
    c = Ctx()
    bad, errors, viol_lines = 0, [], []
    kf = {}
    tot = {"paths": 0, "states": 0, "queries": 0, "sat": 0, "unsat": 0, "solver_s": 0.0, "asserts": 0, "asserts_discharged": 0, "instructions": 0, "branch_decisions": 0, "forks": 0}
    funcs, samples, runs = {}, [], []
    validated = 0
    reached = {h.name: set() for h in hs}
    rdir = os.path.join(V, "replay")
    try:
        only = os.environ.get("VP_CFG")  # development: these configurations only
        jobs = [(h, n, d) for h in hs for n, d in h.cfgs if not only or n in only.split(",")]
        ex = ThreadPoolExecutor(NJOBS)

        def one(job):
            h, n, d = job
            bc = c.prepare(h, d, False)
            r = engine(h, bc, n, c.tmp, pre(h, d))
            res = {"r": r, "confirmed": [], "unconfirmed": [], "validated": 0, "mismatch": []}
            if r["status"] in ("ok", "violation", "incomplete") and (r.get("violations") or r.get("samples")):
                exe = c.prepare(h, d, True)
                for v in r.get("violations", []):
                    ok, nr = confirm(exe, v, pre(h, d), c.tmp)
                    (res["confirmed"] if ok else res["unconfirmed"]).append((v, nr))
                if not r.get("violations"):
                    for s in r.get("samples", []):
                        nr = native(exe, s["inputs"], s["sched"], pre(h, d), c.tmp)
                        if nr["fail"] or nr["diverge"] or nr["obs"] != s["obs"] or not set(s["reach"]) <= nr["reach"]:
                            res["mismatch"].append({"sample": s, "native": {"fail": nr["fail"], "diverge": nr["diverge"], "obs": nr["obs"], "reach": sorted(nr["reach"])}, "err": nr["err"][-800:]})
                        else:
                            res["validated"] += 1
            return job, res

        futs = [ex.submit(one, j) for j in jobs]
        nrep = 0
        for f in as_completed(futs):
            try:
                (h, n, d), res = f.result()
            except Err as e:
                errors.append(str(e))
                continue
            r = res["r"]
            print("%s/%s: %s%s paths=%s queries=%s solver=%ss wall=%ss validated=%d" % (h.name, n, r["status"], " (" + r["why"] + ")" if r.get("why") else "", r.get("paths"), r.get("queries"), r.get("solver_s"), r.get("wall_s"), res["validated"]))
            if os.environ.get("VP_VERBOSE"):
                print(r.get("log", ""))
            for k in tot:
                tot[k] += r.get(k, 0)
            for fn in r.get("functions", []):
                if fn["file"].startswith(REPO):
                    key = os.path.relpath(fn["file"], REPO) + ":" + fn["name"]
                    e = funcs.setdefault(key, [0, 0])
                    e[0] += fn["calls"]
                    e[1] += fn["instructions"]
            reached[h.name] |= set(r.get("reach", []))
            validated += res["validated"]
            for s in r.get("samples", [])[:2]:
                samples.append({"harness": h.name + "/" + n, "inputs": [i["name"] + "=" + i["hex"] for i in s["inputs"]][:40], "sched": s["sched"][:60]})
            runs.append({"harness": h.name, "cfg": n, "defs": d, "status": r["status"], "why": r.get("why", ""), "paths": r.get("paths", 0), "queries": r.get("queries", 0), "solver_s": r.get("solver_s", 0), "max_query_s": r.get("max_query_s", 0), "wall_s": r.get("wall_s", 0), "asserts": r.get("asserts", 0), "asserts_discharged": r.get("asserts_discharged", 0)})
            if r["status"] == "error":
                errors.append(h.name + "/" + n + ": " + r["why"])
            if r["status"] == "incomplete":
                errors.append(h.name + "/" + n + ": incomplete: " + r["why"])
            for m in res["mismatch"]:
                errors.append(h.name + "/" + n + ": sampled path differs natively: " + json.dumps(m)[:2500])
            for v, nr in res["unconfirmed"]:
                errors.append("%s/%s: counterexample not reproduced natively: %s: %s at %s inputs %s (native: %s)" % (h.name, n, v["kind"], v["msg"], v["loc"], json.dumps(v["inputs"])[:600], nr["diverge"]))
            for v, nr in res["confirmed"]:
                k = [x for x in known if x["property"] == pid and x["harness"] == h.name and (norm(v["msg"]) == x["msg"]) and x.get("at", "") in (v["loc"] + " " + " ".join(map(str, v.get("stack", []))))]
                if k:
                    kf[k[0]["id"]] = k[0]
                    continue
                bad += 1
                nrep += 1
                os.makedirs(rdir, exist_ok=True)
                rp = os.path.join(rdir, "%s-%s-%s-%d.json" % (pid, h.name, n, nrep))
                json.dump({"property": pid, "tier": TIER, "harness": h.name, "cfg": d, "kind": v["kind"], "msg": v["msg"], "loc": v["loc"], "stack": v.get("stack"), "inputs": v["inputs"], "sched": v.get("sched", []), "native": nr["fail"]}, open(rp, "w"), indent=1)
                viol_lines.append("VIOLATION property=%s replay=%s\n  %s: %s at %s; natively: %s\n  inputs: %s" % (pid, rp, v["kind"], v["msg"], v["loc"], nr["fail"], " ".join(i["name"] + "=" + i["hex"] for i in v["inputs"])[:600]))
        ex.shutdown(wait=True)
        if not bad:
            for h in hs:
                if h.cfgs and "nolabels" not in h.flags:
                    miss = h.labels - reached[h.name]
                    if miss:
                        errors.append(h.name + ": never reached: " + ", ".join(sorted(miss)))
    finally:
        c.close()
    for x in kf.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, x["what"]))
    seen = set()
    for ln in viol_lines[:6]:
        print(ln)
    for e in errors[:5]:
        print("ERROR: " + e)
    if len(errors) > 5:
        print("ERROR: and %d more" % (len(errors) - 5))
    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot["states"], "transitions": tot["instructions"], "traces_validated_against_impl": validated,
            "samples": samples[:16],
            "paths_completed": tot["paths"], "forks": tot["forks"], "branch_decisions": tot["branch_decisions"],
            "assertions_checked": tot["asserts"], "assertions_discharged": tot["asserts_discharged"],
            "solver": {"name": "z3 4.8.12 (C API)", "queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "seconds": round(tot["solver_s"], 3)},
            "functions_encoded": [{"function": k, "calls": v[0], "ir_instructions_executed": v[1]} for k, v in sorted(funcs.items())],
            "bounds": [h.name + ": " + b for h in hs for b in h.bounds],
            "outside_bounds": [h.name + ": " + b for h in hs for b in h.outside],
            "runs": runs,
            "exhaustive": not errors,
            "known_findings_seen": sorted(kf),
        },
        "assumptions": ["clang 18's LLVM IR at -O1 (no inlining, no builtin recognition) has the meaning the engine gives it; sampled paths are replayed natively",
                        "C library functions behave as rt/models.c and the engine's allocator, mutex and condition models say",
                        "allocation never fails"],
        "wall_s": round(time.time() - t0, 2), "violations": bad}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/" + pid + ".json", "w"), indent=1)
    if bad:
        return 1
    if errors:
        return 2
    print("%s: holds within the stated bounds (%d paths, %d solver queries, %.1f s)" % (pid, tot["paths"], tot["queries"], time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            setup()
            sys.exit(0)
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(main(sys.argv[1]))
    except Err as e:
        print("ERROR: " + str(e))
        sys.exit(2)
