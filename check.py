#!/usr/bin/env python3
"""Driver of the solver-based checks.

  check.py C01 [--tier quick|thorough]   decide one property
  check.py --replay FILE                 re-run a recorded counterexample
  check.py --setup                       build the engine and run its self-test

Every run compiles /repo's current sources with the symbolic-execution pass,
links them with the property's harness and explores the harness to exhaustion
(or to the stated budget). A reported violation has been re-executed on an
ordinary AddressSanitizer build of the same sources first.
"""
import argparse, concurrent.futures, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
LL = "/usr/lib/llvm-20"
CXX = "clang++-20"
NCXX = "g++"  # the compiler /repo's own build uses; clang 20 has no sanitizer runtime here
ENG = os.path.join(VERIF, "engine")
HAR = os.path.join(VERIF, "harness")
JOBS = os.cpu_count() or 8
sys.path.insert(0, VERIF)
from registry import PROPERTIES, SOURCES, FOOTNOTES  # noqa: E402

BASE = ["-DMARCO_VERSION=\"dev\"", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
        "-D__STDC_LIMIT_MACROS", "-I" + LL + "/include", "-I" + REPO + "/include",
        "-I" + os.path.join(BUILD, "gen"), "-I" + ENG, "-I" + HAR, "-fPIC", "-DNDEBUG", "-std=gnu++17",
        "-fno-exceptions", "-funwind-tables", "-fno-rtti", "-w"]
SYM = ["-O1", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-fno-jump-tables",
       "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-gline-tables-only"]
NAT = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def tree(d, exts):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        out += [os.path.join(r, f) for f in fs if f.endswith(exts)]
    return out


def headers_hash():
    fs = tree(os.path.join(REPO, "include"), (".h", ".td", ".inc", ".def"))
    fs += tree(os.path.join(REPO, "lib"), (".h", ".inc", ".def"))
    fs += [os.path.join(ENG, f) for f in ("sym.h",)] + tree(HAR, (".h", ".inc"))
    return file_hash(fs)


def engine():
    """Pass plugin and runtime."""
    os.makedirs(BUILD, exist_ok=True)
    so = os.path.join(BUILD, "SymPass.so")
    rt = os.path.join(BUILD, "rt.o")
    key = file_hash(tree(ENG, (".cpp", ".inc", ".h")))
    stamp = os.path.join(BUILD, "engine.key")
    if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(so) and os.path.exists(rt):
        return so, rt, key
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        a = ex.submit(sh, [CXX, "-shared", "-fPIC", "-O1", "-fno-rtti", "-fno-exceptions", "-std=c++17",
                           "-I" + LL + "/include", "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS",
                           ENG + "/SymPass.cpp", "-o", so, "-L" + LL + "/lib", "-lLLVM-20"])
        b = ex.submit(sh, [CXX, "-O2", "-g1", "-std=c++17", "-w", "-c", ENG + "/rt.cpp", "-o", rt])
        for r in (a.result(), b.result()):
            if r.returncode:
                die("engine does not build:\n" + r.stdout[-4000:])
    open(stamp, "w").write(key)
    return so, rt, key


def gen_headers(groups):
    """TableGen output for the dialect sources, from the current tree."""
    from registry import TABLEGEN
    out = os.path.join(BUILD, "gen")
    os.makedirs(out, exist_ok=True)
    todo = [t for g in groups for t in TABLEGEN.get(g, [])]
    if not todo:
        return ""
    key = file_hash(tree(os.path.join(REPO, "include"), (".td",))) + repr(todo)

    def one(t):
        td, inc, args = t
        dst = os.path.join(out, inc)
        st = dst + ".key"
        if os.path.exists(dst) and os.path.exists(st) and open(st).read() == key:
            return None
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        r = sh(["mlir-tblgen-20"] + args + ["-I", LL + "/include", "-I", REPO + "/include", "-I",
                os.path.dirname(os.path.join(REPO, "include", td)), os.path.join(REPO, "include", td), "-o", dst])
        if r.returncode:
            return r.stdout
        open(st, "w").write(key)
        return None
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for e in ex.map(one, todo):
            if e:
                die("tablegen: " + e[-3000:])
    return hashlib.sha256(key.encode()).hexdigest()


def compile_objs(srcs, mode, so, salt, extra=()):
    """Compile (cached by content) and return the object files."""
    odir = os.path.join(BUILD, mode)
    os.makedirs(odir, exist_ok=True)
    flags = BASE + list(extra) + (SYM + ["-fpass-plugin=" + so] if mode == "sym" else NAT)

    def one(src):
        k = hashlib.sha256((salt + repr(flags) + src).encode() + open(src, "rb").read()).hexdigest()[:24]
        o = os.path.join(odir, os.path.basename(src) + "." + k + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            r = sh([CXX if mode == "sym" else NCXX] + flags + ["-c", src, "-o", tmp])
            if r.returncode:
                return None, "compiling %s:\n%s" % (src, r.stdout[-4000:])
            os.rename(tmp, o)
        return o, None
    # longest first, roughly: big sources first
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        order = sorted(srcs, key=lambda s: -os.path.getsize(s))
        res = dict(zip(order, ex.map(one, order)))
    for s in srcs:
        if res[s][1]:
            die(res[s][1])
    return [res[s][0] for s in srcs]


def build(pid, spec, mode):
    so, rt, key = engine()
    groups = spec["sources"]
    g = gen_headers(groups)
    salt = key + headers_hash() + g
    srcs = []
    for gr in groups:
        for p in SOURCES[gr]:
            p = os.path.join(REPO, p)
            if os.path.isdir(p):
                srcs += sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".cpp"))
            else:
                srcs.append(p)
    srcs = list(dict.fromkeys(srcs))
    if mode == "sym":
        drop = [os.path.join(REPO, f) for f in spec.get("symdrop", [])]
        srcs = [s for s in srcs if s not in drop]
    srcs.append(os.path.join(HAR, spec["harness"]))
    for f in spec.get("extra", []):
        srcs.append(os.path.join(HAR, f))
    if mode == "sym":
        srcs.append(os.path.join(ENG, "stubs.cpp"))
        for f in spec.get("symextra", []):
            srcs.append(os.path.join(HAR, f))
    objs = compile_objs(srcs, mode, so, salt, list(spec.get("flags", ())) + list(spec.get("symflags", ()) if mode == "sym" else ()))
    exe = os.path.join(BUILD, "%s.%s" % (pid, mode))
    libs = ["-L" + LL + "/lib", "-Wl,-rpath," + LL + "/lib", "-Wl,--as-needed", "-lMLIR", "-lLLVM-20"]
    if spec.get("clang"):
        libs += [LL + "/lib/libclang-cpp.so.20.1"]
    if mode == "sym":
        cmd = [CXX] + objs + [rt, "-lz3"] + libs + ["-o", exe]
    else:
        rp = compile_objs([ENG + "/replay.cpp"], mode, so, salt)
        cmd = [NCXX, "-fsanitize=address"] + objs + rp + libs + ["-o", exe]
    r = sh(cmd)
    if r.returncode:
        die("linking %s:\n%s" % (exe, r.stdout[-4000:]))
    return exe, srcs


KIND = {1: "assertion", 2: "crash", 3: "non-termination", 4: "memory error", 5: "out of memory"}


def replay(pid, spec, harness, inputs, timeout=60):
    exe, _ = build(pid, spec, "native")
    try:
        r = subprocess.run([exe, harness] + [str(v) for v in inputs], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout,
                           preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_CORE, (0, 0)))
        out = r.stdout.decode("utf-8", "replace")
        rc = r.returncode
    except subprocess.TimeoutExpired as e:
        return True, "execution does not terminate", (e.stdout or b"").decode("utf-8", "replace")[-2000:]
    for line in out.splitlines():
        if line.startswith("REPLAY-FAIL "):
            return True, line[12:], out[-2000:]
    if "REPLAY-OK" in out or "REPLAY-ASSUME" in out:
        return False, "ok", out[-2000:]
    what = "crash (exit status %d)" % rc
    for line in out.splitlines():
        if "ERROR: AddressSanitizer" in line:
            what = line.strip()
    return True, what, out[-3000:]


def load_known():
    try:
        return json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    except FileNotFoundError:
        return []


def run_check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPERTIES[pid]
    exe, srcs = build(pid, spec, "sym")
    t_build = time.time() - t0
    known = {k["id"]: k for k in load_known() if k["property"] == pid}
    runs = spec["quick"] if tier == "quick" else spec.get("thorough", spec["quick"])
    hard = (780 if tier == "quick" else 6 * 3600)
    tot = dict(paths=0, complete=0, assume_ended=0, sat=0, unsat=0, unknown=0, assert_queries=0, branch_queries=0,
               concretization_queries=0, events=0, solver_s=0.0, exec_s=0.0, integer_paths=0)
    funcs, details, viols, bad, reach_missing, ext = set(), [], [], [], [], {}
    confirmed, unconf = [], []
    samples, kseen = [], {}
    exhaustive = True
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    for run in runs:
        h, budget = run["h"], run.get("budget", 60)
        budget = min(budget, max(5, hard - (time.time() - t0)))
        out = os.path.join(BUILD, "%s.%s.json" % (pid, h))
        if os.path.exists(out):
            os.remove(out)
        cmd = [exe, "--harness", h, "--out", out, "--jobs", str(JOBS), "--budget", str(budget),
               "--exec-timeout-ms", str(run.get("exec_ms", int(min(20000, max(2000, 200 * budget))))), "--query-timeout-ms", str(run.get("query_ms", 20000))]
        for k in known:
            cmd += ["--known", k]
        try:
            r = sh(cmd, timeout=budget + 120)
        except subprocess.TimeoutExpired:
            bad.append("%s: explorer did not stop" % h)
            continue
        if not os.path.exists(out):
            bad.append("%s: explorer failed: %s" % (h, r.stdout[-1500:]))
            continue
        j = json.load(open(out))
        for k in tot:
            tot[k] += j[k]
        funcs |= set(j["functions"])
        for e, n in j["external_enumerated"].items():
            ext[e] = ext.get(e, 0) + n
        complete = bool(j["exhausted"]) and not (j["unknown"] or j["diverged"] or j["engine_errors"] or j["children_lost"])
        if j["engine_errors"] or j["children_lost"] or j["diverged"]:
            bad.append("%s: engine: %s" % (h, "; ".join(j["engine_messages"][:3])))
        exhaustive = exhaustive and complete
        newv = 0
        for v in j["violations"]:
            if v["id"] in known:
                kseen[v["id"]] = (h, v)
            else:
                newv += 1
                viols.append((h, v))
        miss = [l for l in run.get("reach", []) if l not in j["reach"]]
        if miss and not confirmed and complete:
            reach_missing.append("%s: %s" % (h, ",".join(miss)))
        details.append(dict(harness=h, bounds=run.get("bounds", ""), exhausted=complete, budget_s=round(budget, 1),
                            paths=j["paths"], completed=j["complete"], ended_by_assumption=j["assume_ended"],
                            sat=j["sat"], unsat=j["unsat"], unknown=j["unknown"], assertions_proved=j["assert_queries"],
                            max_decisions=j["max_events"], solver_s=round(j["solver_s"], 2),
                            wall_s=round(j["wall_s"], 2), max_query_s=round(j["max_query_s"], 3), reach=j["reach"]))
        for s in j["sample_inputs"][:2]:
            samples.append({"harness": h, "inputs": s[:40]})
        # Confirm on the native build. Stop at the first violation that reproduces.
        for v in viols[len(confirmed) + len(unconf):]:
            n = len(confirmed) + len(unconf)
            h, v = v
            ok, what, log = replay(pid, spec, h, v["input"])
            rec = dict(property=pid, harness=h, failure=KIND.get(v["kind"], str(v["kind"])), id=v["id"],
                       inputs=v["input"], names=v["names"], bits=v["bits"], native=what, native_log=log)
            p = os.path.join(VERIF, "evidence", "replays", "%s-%s-%d.json" % (pid, h, n))
            json.dump(rec, open(p, "w"), indent=1)
            (confirmed if ok else unconf).append((p, rec))
            exhaustive = exhaustive and ok
        if confirmed:
            break
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2),
              violations=len(confirmed),
              coverage=dict(
                  states=tot["complete"], transitions=tot["events"],
                  traces_validated_against_impl=max(0, tot["paths"] - 1),
                  samples=samples or [{"none": True}], exhaustive=exhaustive,
                  explanation="states: complete symbolic paths of the harness through the real code (each stands for "
                              "every input satisfying its path condition); transitions: decisions on those paths; "
                              "traces validated: solver models re-executed on the instrumented real code and checked "
                              "to follow the predicted prefix.",
                  bounds=spec["bounds"], outside_bounds=spec.get("outside", ""),
                  queries=dict(sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"],
                               on_assertions=tot["assert_queries"], on_branches=tot["branch_queries"],
                               on_enumerated_values=tot["concretization_queries"],
                               integer_encoded_paths=tot["integer_paths"]),
                  solver="z3 4.8.12", solver_s=round(tot["solver_s"], 2), build_s=round(t_build, 1),
                  functions_encoded=sorted({demangle_cache(f.split("\t")[0]) for f in funcs}),
                  function_count=len(funcs), external_calls_enumerated=ext,
                  runs=details, vacuity_problems=reach_missing, engine_problems=bad,
                  unconfirmed=[r for _, r in unconf],
                  known_findings={k: v[1]["input"] for k, v in kseen.items()}),
              assumptions=spec.get("assumptions", []) + FOOTNOTES)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for d in details:
        print("%s %s: %s, %d paths, %d sat / %d unsat / %d unknown queries, %.1fs" % (
            pid, d["harness"], "exhaustive within bounds" if d["exhausted"] else "INCOMPLETE", d["paths"], d["sat"],
            d["unsat"], d["unknown"], d["wall_s"]))
    for k in sorted(kseen):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    for p, rec in confirmed:
        print("  %s in %s: %s; native run: %s" % (rec["failure"], rec["harness"], rec["id"], rec["native"]))
        print("  inputs: " + ", ".join("%s=%d" % x for x in zip(rec["names"], rec["inputs"])))
        print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
    if confirmed:
        return 1
    for p, rec in unconf:
        print("UNCONFIRMED: %s in %s (%s): native run says %s" % (rec["id"], rec["harness"], p, rec["native"]))
    for b in bad:
        print("ENGINE: " + b)
    for b in reach_missing:
        print("VACUOUS: " + b)
    # An execution that was cut as too long but ends natively is a path left out.
    if [1 for _, r in unconf if r["failure"] != "non-termination"] or reach_missing:
        return 2
    if bad and not tot["complete"]:
        return 2
    print("%s: holds on everything explored (%s, %.0fs)" % (pid, "exhaustive within bounds" if exhaustive else "bounded budget reached", wall))
    return 0


_dem = {}


def demangle_cache(n):
    return _dem.get(n, n)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.replay:
        rec = json.load(open(a.replay))
        ok, what, log = replay(rec["property"], PROPERTIES[rec["property"]], rec["harness"], rec["inputs"])
        print(log)
        print("reproduced: " + what if ok else "not reproduced")
        sys.exit(1 if ok else 0)
    if a.setup:
        spec = PROPERTIES["SELF"]
        exe, _ = build("SELF", spec, "sym")
        for h, want in spec["expect"].items():
            out = os.path.join(BUILD, "self.json")
            sh([exe, "--harness", h, "--out", out, "--budget", "120", "--max-violations", "5",
                "--exec-timeout-ms", "1500"])
            j = json.load(open(out))
            got = sorted(v["id"] for v in j["violations"])
            if got != sorted(want) or j["engine_errors"] or j["diverged"] or j["children_lost"]:
                die("engine self-test %s: expected %s, got %s (%s)" % (h, want, got, j["engine_messages"][:2]))
            print("self-test %s: ok (%d paths)" % (h, j["paths"]))
        sys.exit(0)
    if a.property not in PROPERTIES:
        die("unknown property " + str(a.property))
    if a.build_only:
        print(build(a.property, PROPERTIES[a.property], "sym")[0])
        sys.exit(0)

    sys.exit(run_check(a.property, a.tier))


if __name__ == "__main__":
    main()
