#!/usr/bin/env python3
"""Decide one property: compile the harnesses against /repo's current sources to LLVM IR, execute them
symbolically with engine/build/sx (z3), replay every counterexample natively, write evidence/<id>.json.
usage: check.py ID [quick|thorough] [--only ENTRY] [--keep]"""
import sys, os, json, glob, re, subprocess, tempfile, shutil, time, threading, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SV_REPO", "/repo")
SX = os.path.join(V, "engine", "build", "sx")
FLAGS = ["-std=c++11", "-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off",
         "-fno-math-errno", "-fno-pic", "-fno-pie", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w"]
NFLAGS = ["-std=c++11", "-O1", "-g1", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS", "-w", "-rdynamic"]
INC = ["-I" + os.path.join(V, "rt"), "-I" + REPO + "/src/lib", "-I" + REPO + "/src/objloader"]
NCPU = os.cpu_count() or 4


def run(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf8", "replace"), "timeout"


FOUND = threading.Event()
GRACE = 20
MSAN = threading.Lock()


def runjob(cmd, timeout):
    """like run, but given up some seconds after another job found a confirmed violation"""
    with tempfile.TemporaryFile() as er:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=er)
        t0, tf = time.time(), None
        while True:
            try:
                p.wait(1 if time.time() - t0 > 3 else 0.05)
                break
            except subprocess.TimeoutExpired:
                pass
            if FOUND.is_set() and tf is None:
                tf = time.time()
            if time.time() - t0 > timeout or (tf and time.time() - tf > GRACE):
                p.kill()
                p.wait()
                break
        er.seek(0)
        return p.returncode, "", er.read().decode("utf8", "replace")


class Broken(Exception):
    pass


def parse(src):
    ents = []
    for l in open(src):
        m = re.match(r"\s*// SV:\s*(\{.*\})\s*$", l)
        if m:
            try:
                ents.append(json.loads(m.group(1)))
            except Exception as e:
                raise Broken("bad SV line in %s: %s" % (src, e))
    return ents


def opts(src):
    inc = []
    for l in open(src):
        m = re.match(r"\s*// SVFLAGS:\s*(.*)$", l)
        if m:
            inc += m.group(1).replace("$V", V).split()
    return inc


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in args:
        if a in ("quick", "thorough"):
            tier = a
    only = args[args.index("--only") + 1] if "--only" in args else None
    keep = "--keep" in args
    verbose = "-v" in args
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if not os.path.exists(SX):
        rc, o, e = run(["make", "-C", os.path.join(V, "engine"), "-j4"])
        if rc:
            raise Broken("engine build failed\n" + e[-2000:])
    tmp = tempfile.mkdtemp(prefix="sv-%s-" % pid)
    try:
        return work(pid, tier, only, seed, t0, tmp, verbose)
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print("kept", tmp)


def work(pid, tier, only, seed, t0, tmp, verbose):
    srcs = sorted(glob.glob(os.path.join(V, "harness", pid + "*.cpp")))
    if not srcs:
        raise Broken("no harness for " + pid)
    units = []
    for s in srcs:
        ents = [e for e in parse(s) if not only or e["entry"] == only]
        if tier == "quick":
            ents = [e for e in ents if not e.get("thorough_only")]
        if not ents:
            continue
        b = os.path.basename(s)[:-4]
        units.append(dict(src=s, ents=ents, fl=opts(s), bc=os.path.join(tmp, b + ".bc"), exe=os.path.join(tmp, b + ".exe")))
    rt = [os.path.join(tmp, "rt.bc"), os.path.join(tmp, "rtc.bc")]
    pool = cf.ThreadPoolExecutor(NCPU)

    def comp(cmd):
        rc, o, e = run(cmd, 300)
        if rc:
            raise Broken("compilation failed: %s\n%s" % (" ".join(cmd), e[-4000:]))
    fs = [pool.submit(comp, ["clang++"] + FLAGS + ["-fno-builtin", "-emit-llvm", "-c", os.path.join(V, "rt/rt.cpp"), "-o", rt[0]]),
          pool.submit(comp, ["clang"] + [f for f in FLAGS if not f.startswith("-std") and "GLIBCXX" not in f] + ["-fno-builtin", "-emit-llvm", "-c", os.path.join(V, "rt/rtc.c"), "-o", rt[1]])]
    for u in units:
        u["bcf"] = pool.submit(comp, ["clang++"] + FLAGS + ["-DSV_SYMBOLIC=1"] + u["fl"] + INC + ["-emit-llvm", "-c", u["src"], "-o", u["bc"]])
    for f in fs:
        f.result()
    for u in units:
        u["bcf"].result()

    # native replay binaries, compiled alongside
    def native(u, san="address,undefined", exe=None):
        exe = exe or u["exe"]
        fl = ["-fsanitize=" + san, "-fno-sanitize=vptr,signed-integer-overflow,float-divide-by-zero,alignment,function,null,return,shift", "-fno-sanitize-recover=undefined"] if san != "memory" else ["-fsanitize=memory"]
        cmd = ["clang++"] + NFLAGS + fl + [x for x in u["fl"] if not x.startswith("-X")] + INC + [u["src"], os.path.join(V, "rt/native.cpp"), "-ldl", "-o", exe]
        rc, o, e = run(cmd, 300)
        if rc:
            return "native build failed: " + e[-1500:]
        return None

    jobs = []
    for u in units:
        for e in u["ents"]:
            ps = list(e.get("quick", [[]]))
            if tier == "thorough":
                ps = ps + list(e.get("thorough", []))
            if only and os.environ.get("SV_PARAMS"):
                ps = json.loads(os.environ["SV_PARAMS"])  # development: other bounds for one entry
            for p in ps:
                jobs.append((u, e, p))
    # longest first when a weight is given
    jobs.sort(key=lambda j: -j[1].get("weight", 1) * (1 + sum(x for x in j[2] if isinstance(x, int))))

    def job(j):
        u, e, p = j
        out = os.path.join(tmp, "o-%s-%s-%s.json" % (os.path.basename(u["bc"]), e["entry"], "_".join(map(str, p))))
        to = e.get("timeout", 240 if tier == "quick" else 3000)
        cmd = [SX, "--entry", e["entry"], "--out", out, "--timeout", str(to)]
        if p:
            cmd += ["--param", ",".join(map(str, p))]
        if e.get("mode") == "fp":
            cmd += ["--fp"]
        cmd += [str(x) for x in e.get("args", [])] + [u["bc"]] + rt
        if FOUND.is_set():
            rc, o, er = -9, "", "not started: another job found a violation"
        else:
            rc, o, er = runjob(cmd, to + 120)
        try:
            r = json.load(open(out))
        except Exception:
            r = dict(entry=e["entry"], params=p, status="error", fatal="executor died rc=%s %s" % (rc, er[-500:]), violations=[], samples=[], reach={}, paths=0, instructions=0, functions=[],
                     asserts=0, eq_asserts=0, eq_normal_form=0, pruned=0, forks=0, violating_paths=0, solver={}, wall=0, inconclusive_msgs=[])
        r["unit"] = os.path.basename(u["src"])
        for v in r["violations"][:2]:
            if not FOUND.is_set() and not listed(e, p, v) and confirm((u, e, p, v))[1] is not None:
                FOUND.set()
        if verbose:
            print("  %-28s %-14s %-12s paths %-7d instr %-9d q %-6d t %.1fs %s" % (e["entry"], p, r["status"], r["paths"], r["instructions"], r["solver"].get("queries", 0), r["wall"], r["fatal"]), flush=True)
        return u, e, p, r
    nat = {id(u): pool.submit(native, u) for u in units}

    # ---- replay
    def replay(u, exe, e, p, inputs, to=20):
        f = os.path.join(tmp, "in-%d-%d.txt" % (os.getpid(), abs(hash((e["entry"], str(p), str(inputs))))))
        with open(f, "w") as h:
            for n, v in inputs:
                h.write("%s %s\n" % (n.replace(" ", "_"), v))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:alloc_dealloc_mismatch=0", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1")
        rc, o, er = run([exe, e["entry"], ",".join(map(str, p)) or "-", f], to, env)
        return rc, er
    known = load_known(pid)

    def listed(e, p, v):
        return [k for k in known if k["entry"] == e["entry"] and k["msg"] == v["msg"] and k.get("params", p) == p]

    def confirm(t):
        u, e, p, v = t
        err = nat[id(u)].result()
        if err:
            return t, None, None, err
        last = ""
        for inp in v["inputs"]:
            if v["kind"] == "uninit":
                continue
            rc, er = replay(u, u["exe"], e, p, inp)
            last = "rc=%s %s" % (rc, er[-600:])
            if v["kind"] == "nonterm":
                if rc == -999 or (rc not in (0, 43, 99)):
                    return t, inp, rc, er
            elif rc not in (0, 43, 99) and rc != -999:
                return t, inp, rc, er
            elif rc == -999:
                return t, inp, rc, "does not terminate within 20 s"
        if v["kind"] in ("uninit", "memory", "crash"):
            ms = u["exe"] + ".msan"
            with MSAN:
                if not os.path.exists(ms):
                    native(u, "memory", ms)
            if os.path.exists(ms):
                for inp in v["inputs"]:
                    rc, er = replay(u, ms, e, p, inp)
                    last = "msan rc=%s %s" % (rc, er[-600:])
                    if rc not in (0, 43, 99):
                        return t, inp, rc, er
        return t, None, None, last
    res = list(pool.map(job, jobs))
    violations, unconfirmed, errors, knownhit = [], [], [], []
    tasks = []
    for u, e, p, r in res:
        if r["status"] in ("unsupported", "timeout", "limit", "error", "inconclusive"):
            errors.append("%s%s: %s %s %s" % (e["entry"], p, r["status"], r["fatal"], "; ".join(r.get("inconclusive_msgs", [])[:3])))
        for v in r["violations"]:
            tasks.append((u, e, p, v))

    seen = set()
    uniq = []
    for t in tasks:
        k = (t[0]["src"], t[1]["entry"], t[3]["kind"], t[3]["msg"], t[3]["where"])
        if k in seen and len([1 for q in uniq if q[1]["entry"] == t[1]["entry"] and q[3]["msg"] == t[3]["msg"]]) > 11:
            continue
        seen.add(k)
        uniq.append(t)
    rd = os.path.join(V, "replay")
    for (u, e, p, v), inp, rc, er in pool.map(confirm, uniq[:120]):
        d = dict(property=pid, entry=e["entry"], unit=os.path.basename(u["src"]), params=p, kind=v["kind"], msg=v["msg"], where=v["where"])
        if inp is None:
            d["note"] = er
            d["candidates"] = v["inputs"][:2]
            unconfirmed.append(d)
            continue
        d["inputs"] = inp
        d["native_rc"] = rc
        d["native_output"] = (er or "")[-1500:]
        kf = listed(e, p, v)
        if kf:
            knownhit.append((kf[0], d))
        else:
            violations.append(d)
    # ---- witnesses: sampled paths are run against the real build
    val_ok, val_bad, samples = 0, [], []
    budget = 80 if tier == "quick" else 300
    for u, e, p, r in res:
        for s in r["samples"][:5]:
            if len(samples) < 6:
                samples.append(dict(entry=e["entry"], params=p, inputs=s))
    wt = [(u, e, p, s) for u, e, p, r in res for s in r["samples"][:6] if not e.get("no_native")]
    step = max(1, len(wt) // budget)
    wt = wt[::step][:budget]

    def wit(t):
        u, e, p, s = t
        if nat[id(u)].result():
            return t, 98, nat[id(u)].result()
        rc, er = replay(u, u["exe"], e, p, s)
        return t, rc, er
    for (u, e, p, s), rc, er in pool.map(wit, wt):
        if rc == 0:
            val_ok += 1
        else:
            val_bad.append(dict(entry=e["entry"], params=p, inputs=s, rc=rc, out=er[-300:]))
    # ---- vacuity
    reach = {}
    for u, e, p, r in res:
        for k, n in r["reach"].items():
            reach.setdefault(e["entry"], {}).setdefault(k, 0)
            reach[e["entry"]][k] += n
    vac = []
    if not violations and not knownhit:
        for u in units:
            for e in u["ents"]:
                if not [1 for j in res if j[1] is e]:
                    continue
                for lab in e.get("reach", ["end"]):
                    if not reach.get(e["entry"], {}).get(lab):
                        vac.append("%s never reaches '%s'" % (e["entry"], lab))
    tot = lambda k: sum(r[3].get(k, 0) for r in res)
    sol = {}
    for r in res:
        for k, x in r[3]["solver"].items():
            sol[k] = max(sol.get(k, 0), x) if k == "max" else sol.get(k, 0) + x
    funcs = sorted({f for r in res for f in r[3]["functions"]})
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(violations),
              coverage=dict(states=tot("paths") + tot("pruned") + tot("violating_paths"), transitions=tot("instructions"), traces_validated_against_impl=val_ok, samples=samples,
                            exhaustive=not errors and not unconfirmed,
                            rule="states = symbolic paths explored to their end (each covers all values of its symbolic inputs); transitions = LLVM instructions executed symbolically; a trace counts as validated when a solver model of a path was run through the natively compiled real code and met every assertion",
                            completed_paths=tot("paths"), pruned_paths=tot("pruned"), forks=tot("forks"), assertions_discharged=tot("asserts"),
                            equalities_discharged_by_normal_form=tot("eq_normal_form"), solver=sol, solver_time_s=round(sol.get("time", 0), 2),
                            witness_mismatches=len(val_bad), witness_mismatch_examples=val_bad[:3],
                            functions_encoded=funcs, functions_encoded_count=len(funcs),
                            harnesses=[dict(unit=r[3]["unit"], entry=r[1]["entry"], params=r[2], mode=r[3].get("mode", "real"), status=r[3]["status"], paths=r[3]["paths"], queries=r[3]["solver"].get("queries", 0), wall=round(r[3]["wall"], 2), bound=r[1].get("bound", "")) for r in res],
                            reachability_witnesses=reach, known_findings_hit=len(knownhit), unconfirmed=unconfirmed[:5], errors=errors[:10]),
              assumptions=sorted({a for u in units for e in u["ents"] for a in e.get("assume", [])} | {
                  "double/float/complex arithmetic is read as exact real arithmetic with NaN/Inf as special values (entries in mode fp: bit-precise IEEE)",
                  "allocation never fails; libstdc++ out-of-line functions, compiler-rt complex arithmetic and sqrt are replaced by the models in rt/ and engine/models.inc",
                  "bounds per harness entry are listed in coverage.harnesses (params, bound); nothing is claimed outside them"}))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for kf in {json.dumps(k) for k, d in knownhit}:
        k = json.loads(kf)
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d jobs, %d paths, %d instructions, %d assertions, %d solver queries (%.1fs), %d validated traces (%d mismatches), %.1fs" % (
        pid, tier, len(res), tot("paths"), tot("instructions"), tot("asserts"), sol.get("queries", 0), sol.get("time", 0), val_ok, len(val_bad), time.time() - t0))
    if verbose:
        for b in val_bad[:5]:
            print("  witness mismatch:", json.dumps(b)[:600])
        print("  functions:", len(funcs))
    if violations:
        os.makedirs(rd, exist_ok=True)
        done = set()
        for i, d in enumerate(violations):
            k = (d["entry"], d["msg"])
            if k in done:
                continue
            done.add(k)
            path = os.path.join(rd, "%s-%s-%d.json" % (pid, d["entry"], i))
            d["how_to_replay"] = "python3 %s/replay.py %s" % (V, path)
            json.dump(d, open(path, "w"), indent=1)
            print("  [%s] %s %s: %s\n    inputs %s\n    at %s\n    native: %s" % (d["kind"], d["entry"], d["params"], d["msg"], json.dumps(d["inputs"])[:600], d["where"].split("\n")[0][:300], d["native_output"].strip().split("\n")[-1][:200] if d["kind"] == "assert" else (d["native_output"].strip().split("\n") or [""])[0][:200]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    bad = False
    for d in unconfirmed[:10]:
        print("UNCONFIRMED (not replayable natively): [%s] %s %s: %s | %s\n   %s\n   %s" % (d["kind"], d["entry"], d["params"], d["msg"], d["where"][:1200], json.dumps(d["candidates"])[:500], (d["note"] or "")[:500]))
        bad = True
    for m in errors[:10] + vac:
        print("INCONCLUSIVE:", m)
        bad = True
    return 2 if bad else 0


def load_known(pid):
    r = []
    f = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            d = json.loads(l)
            if d["property"] == pid:
                r.append(d)
    return r


if __name__ == "__main__":
    try:
        rc = main()
    except Broken as b:
        print("CHECK ERROR:", b)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
