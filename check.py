#!/usr/bin/env python3
"""Decides one property: builds the harness crate against /repo's working tree, takes the whole-program
LLVM IR, explores every path of every harness symbolically (engine/), replays what it finds natively.

usage: check.py <property id> [quick|thorough] [--only REGEX] [--keep]
exit: 0 held on everything explored; 1 VIOLATION; 2 no verdict
"""
import json, os, re, resource, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("RV_BUILD", os.path.join(V, ".build"))
ENG = os.path.join(BUILD, "engine", "release", "sx")
NPROC = int(os.environ.get("RV_JOBS", 0)) or min(8, os.cpu_count() or 8)
T0 = time.time()

CONFIGS = {
    # name: (cargo features, checked arithmetic + debug assertions?)
    "varint": (["spec"], True),
    "fixedw": (["spec", "fixedw"], True),
    "varint-nospec": ([], True),
    "fixedw-nospec": (["fixedw"], True),
    "varint-release": (["spec"], False),
    "fixedw-release": (["spec", "fixedw"], False),
    "varint-nospec-release": ([], False),
}


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    e["CARGO_INCREMENTAL"] = "0"
    return e


def die(msg):
    print("NO VERDICT: " + msg, flush=True)
    sys.exit(2)


def cargo(args, cwd, what):
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError(f"{what} failed:\n" + r.stderr[-6000:])


def build_engine():
    cargo(["build", "--release", "--offline", "--locked", "--target-dir", os.path.join(BUILD, "engine")], os.path.join(V, "engine"), "engine build")


def feats(prop, cfg, deep, native):
    f = list(CONFIGS[cfg][0]) + [prop["feature"]] + prop.get("features", [])
    if deep:
        f.append("deep")
    if native:
        f.append("native")
    return ",".join(f)


def build_ir(prop, cfg, deep):
    prof = "checked" if CONFIGS[cfg][1] else "release"
    td = os.path.join(BUILD, f"ir-{prop['feature']}-{cfg}")
    # the IR must come from this build
    ll = os.path.join(td, prof, "deps", "rvh.ll")
    cargo(["rustc", "--profile", prof, "--lib", "--crate-type", "cdylib", "--offline", "--locked", "--no-default-features", "--features", feats(prop, cfg, deep, False),
           "--target-dir", td, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], os.path.join(V, prop.get("crate", "harness")), f"IR build ({cfg})")
    if not os.path.exists(ll):
        raise RuntimeError("no IR at " + ll)
    return ll


def build_native(prop, cfg, deep):
    prof = "replay-checked" if CONFIGS[cfg][1] else "replay"
    td = os.path.join(BUILD, f"native-{prop['feature']}-{cfg}")
    cargo(["build", "--profile", prof, "--bin", "replay", "--offline", "--locked", "--no-default-features", "--features", feats(prop, cfg, deep, True),
           "--target-dir", td], os.path.join(V, prop.get("crate", "harness")), f"native build ({cfg})")
    return os.path.join(td, prof, "replay")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))


NATIVE_GB = 4


def native_limits():
    resource.setrlimit(resource.RLIMIT_AS, (NATIVE_GB << 30, NATIVE_GB << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def harness_names(ll):
    out = []
    with open(ll) as f:
        for line in f:
            if line.startswith("define"):
                m = re.search(r"@([hk]_[a-z0-9_]+)\(", line)
                if m:
                    out.append(m.group(1))
    return sorted(out)


FOUND = None  # when the first violation turned up
GRACE = 60


def run_sx(ll, h, secs, opts):
    """one harness; once another harness has found a violation, only GRACE seconds more"""
    p = subprocess.Popen([ENG, ll, h, "--time", str(int(secs))] + opts, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits)
    end = time.time() + secs + 60
    while True:
        try:
            out, err = p.communicate(timeout=2)
            break
        except subprocess.TimeoutExpired:
            if time.time() > end or (FOUND and time.time() > FOUND + GRACE):
                p.kill()
                p.communicate()
                return {"harness": h, "error": "time limit"}
    if p.returncode != 0:
        return {"harness": h, "error": (err[-800:] or f"exit {p.returncode}")}
    d = json.loads(out)
    d["stderr"] = err[-1500:]
    return d


def native(binary, lines, timeout=120):
    """runs a batch; a crash of the process is reported for the line it happened on"""
    res = []
    todo = list(lines)
    while todo:
        try:
            r = subprocess.run([binary], input="\n".join(todo) + "\n", capture_output=True, text=True, preexec_fn=native_limits, timeout=timeout)
            got = r.stdout.splitlines()
            crash = f"crash exit {r.returncode}"
        except subprocess.TimeoutExpired as e:
            got = (e.stdout or b"").decode().splitlines()
            crash = "crash timeout"
        res += got
        todo = todo[len(got):]
        if todo:
            res.append(crash)
            todo = todo[1:]
    return res


def demangle(names):
    if not names:
        return []
    r = subprocess.run(["c++filt", "-s", "rust"], input="\n".join(names), capture_output=True, text=True)
    o = r.stdout.splitlines()
    if len(o) != len(names):
        return names
    return [re.sub(r"\[[0-9a-f]{8,}\]", "", x) for x in o]


def miri(prop, cfg, deep, line):
    td = os.path.join(BUILD, f"miri-{prop['feature']}-{cfg}")
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    try:
        r = subprocess.run(["cargo", "miri", "run", "--bin", "replay", "--offline", "--locked", "--no-default-features", "--features", feats(prop, cfg, deep, True), "--target-dir", td],
                           cwd=os.path.join(V, prop.get("crate", "harness")), env=e, input=line + "\n", capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return None
    if "Undefined Behavior" in r.stderr:
        return "miri: " + re.search(r"Undefined Behavior[^\n]*", r.stderr).group(0)
    return None


def main():
    if "--setup" in sys.argv:
        try:
            build_engine()
        except RuntimeError as e:
            die(str(e))
        print("engine built")
        return
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    only = None
    for a in sys.argv[1:]:
        if a.startswith("--only="):
            only = re.compile(a[7:])
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    deep = tier == "thorough"
    props = json.load(open(os.path.join(V, "props.json")))
    prop = props[pid]
    global NATIVE_GB
    NATIVE_GB = prop.get("native_gb", NATIVE_GB)
    cfgs = prop["thorough"] if deep and "thorough" in prop else prop["configs"]
    if os.environ.get("RV_CONFIGS"):
        cfgs = [c for c in cfgs if c in os.environ["RV_CONFIGS"].split(",")] or cfgs
    budget = float(os.environ.get("RV_BUDGET", "3000" if deep else "820"))
    known = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    known = [k for k in known if k["property"] == pid and k.get("status") != "fixed"]

    with ThreadPoolExecutor(NPROC) as ex:
        fe = ex.submit(build_engine)
        fi = {c: ex.submit(build_ir, prop, c, deep) for c in cfgs}
        fn = {c: ex.submit(build_native, prop, c, deep) for c in cfgs}
        try:
            fe.result()
            lls = {c: fi[c].result() for c in cfgs}
            bins = {c: fn[c].result() for c in cfgs}
        except RuntimeError as e:
            die(str(e))
    t_build = time.time() - T0

    jobs = []
    for c in cfgs:
        names = harness_names(lls[c])
        if only:
            names = [n for n in names if only.search(n)]
        if not names:
            die(f"no harness in {lls[c]}")
        jobs += [(c, n) for n in names]
    # slow harnesses first
    slow = prop.get("slow", [])
    jobs.sort(key=lambda j: (0 if any(re.search(s, j[1]) for s in slow) else 1))
    opts = prop.get("engine_opts", [])

    def job(j):
        global FOUND
        left = budget - (time.time() - T0) - 20
        if left < 5:
            return {"harness": j[1], "error": "time limit"}
        if FOUND and time.time() > FOUND + GRACE:
            return {"harness": j[1], "error": "time limit"}
        d = run_sx(lls[j[0]], j[1], left, opts)
        if not FOUND and any(not any(k["harness"] == j[1] for k in known) for _ in d.get("violations", [])):
            FOUND = time.time()
        return d

    with ThreadPoolExecutor(NPROC) as ex:
        results = list(ex.map(job, jobs))
    if os.environ.get("RV_SHOW"):
        for (c, h), d in zip(jobs, results):
            print(c, h, d.get("error") or {k: d[k] for k in ("paths", "queries", "wall_s", "solver_s", "huge_alloc", "inconclusive", "covers")})

    problems, violations, validated = [], [], 0
    incomplete = set()  # harness runs without a verdict
    # native replay of sampled paths: the executor must agree with the compiled code
    for c in cfgs:
        lines, want, whose = [], [], []
        for (cc, h), d in zip(jobs, results):
            if cc != c or "error" in d or h.startswith("k_"):
                continue
            for hexs, obs in d["samples"][:64]:
                lines.append(f"{h} {hexs}")
                want.append("ok " + ",".join(map(str, obs)))
                whose.append(h)
        got = native(bins[c], lines, 300)
        for l, w, g, h in zip(lines, want, got, whose):
            if w.strip() == g.strip():
                validated += 1
            else:
                problems.append(f"{c}: executor and native run disagree on '{l}': predicted '{w}', native '{g}'")
                incomplete.add((c, h))

    kf_lines = []
    for (c, h), d in zip(jobs, results):
        if "error" in d:
            problems.append(f"{c}/{h}: {d['error']}")
            incomplete.add((c, h))
            continue
        before = len(problems)
        for v in d["violations"]:
            line = f"{h} {v['inputs']}"
            nat = native(bins[c], [line], 20 if v["kind"] == "hang" else 60)[0]
            rep = nat.startswith("assert") or nat.startswith("panic") or nat.startswith("crash")
            if not rep and v["kind"] in ("memory", "unreachable"):
                m = miri(prop, c, deep, line)
                if m:
                    nat, rep = m, True
            st = demangle(v["stack"][:8])
            rec = {"property": pid, "config": c, "harness": h, "kind": v["kind"], "msg": v["msg"], "inputs": v["inputs"], "native": nat, "stack": st,
                   "reproduce": f"echo '{line}' | {bins[c]}   (built by check.py; features {feats(prop, c, deep, True)})"}
            if not rep:
                problems.append(f"{c}/{h}: counterexample does not reproduce natively: {v['kind']} {v['msg']} inputs={v['inputs']} native='{nat}' stack={st[:4]}")
                continue
            k = next((k for k in known if k["harness"] == h and (not k.get("msg") or k["msg"] == v["msg"])), None)
            if k:
                if k["what"] not in kf_lines:
                    kf_lines.append(k["what"])
                continue
            violations.append(rec)
        for m, n in d["inconclusive"].items():
            problems.append(f"{c}/{h}: inconclusive: {m} (x{n}) {d['stderr'][-400:]}")
        if d["queries_unknown"]:
            problems.append(f"{c}/{h}: solver unknown")
        if h.startswith("h_") and not d["violations"]:
            if d["paths"] == 0:
                problems.append(f"{c}/{h}: vacuous, no path completes")
            for m, n in d["covers"].items():
                if n == 0:
                    problems.append(f"{c}/{h}: reachability witness '{m}' not reached")
        if len(problems) > before:
            incomplete.add((c, h))

    ok = [d for d in results if "error" not in d]
    tot = lambda k: sum(d.get(k, 0) for d in ok)
    fns = sorted(set(f for d in ok for f in d["functions"]))
    dem = [x for x in demangle(fns)]
    rev = sorted(set(x for x in dem if "revision" in x))
    samples = []
    for (c, h), d in zip(jobs, results):
        if "error" not in d and d["samples"] and len(samples) < 12:
            samples.append({"config": c, "harness": h, "input": d["samples"][0][0], "observed": d["samples"][0][1]})
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("assumed_away") + tot("huge_alloc"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"none": True}],
            "exhaustive": not problems,
            "harness_runs": len(jobs),
            "configurations": cfgs,
            "symbolic_paths_completed": tot("paths"),
            "paths_ended_by_assumption": tot("assumed_away"),
            "paths_ended_by_unsatisfiable_allocation": tot("huge_alloc"),
            "forks": tot("forks"),
            "assertions_checked": tot("asserts"),
            "solver": sorted(set(d["solver"] for d in ok)),
            "solver_queries": tot("queries"), "solver_sat": tot("queries_sat"), "solver_unsat": tot("queries_unsat"), "solver_cache_hits": tot("queries_cached"),
            "solver_seconds": round(tot("solver_s"), 3), "max_query_seconds": max([d["max_query_s"] for d in ok] or [0]),
            "symbolic_input_bytes_max": max([d["input_bytes"] for d in ok] or [0]),
            "loop_iterations_max": max([d["max_loop_iterations"] for d in ok] or [0]),
            "bounds": prop.get("bounds", ""),
            "functions_encoded": len(fns),
            "functions_encoded_revision": rev[:400],
            "reachability_witnesses": {f"{c}/{h}": d["covers"] for (c, h), d in zip(jobs, results) if "error" not in d and d["covers"]},
            "per_harness": {f"{c}/{h}": {"paths": d["paths"], "queries": d["queries"], "wall_s": d["wall_s"]} for (c, h), d in zip(jobs, results) if "error" not in d},
            "known_findings_seen": kf_lines,
            "harness_runs_without_verdict": sorted(f"{c}/{h}" for c, h in incomplete),
            "problems": problems[:20],
            "build_seconds": round(t_build, 1),
        },
        "assumptions": props["_assumptions"] + prop.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)

    for k in kf_lines:
        print(f"KNOWN-FINDING: property={pid} {k}")
    if violations:
        rd = os.path.join(V, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        for i, r in enumerate(violations[:10]):
            p = os.path.join(rd, f"{pid}-{r['config']}-{r['harness']}-{i}.json")
            json.dump(r, open(p, "w"), indent=1)
            print(f"  {r['config']}/{r['harness']}: {r['kind']}: {r['msg']} | native: {r['native']} | {' < '.join(r['stack'][:3])}")
            print(f"VIOLATION property={pid} replay={p}")
        for p in problems[:5]:
            print("  note: " + p)
        sys.exit(1)
    if problems:
        if len(incomplete) * 5 > len(jobs) or os.environ.get("RV_STRICT"):
            die(f"property {pid}: {len(incomplete)} of {len(jobs)} harness runs gave no verdict\n  " + "\n  ".join(problems[:20]))
        for p in problems[:20]:
            print("  INCOMPLETE: " + p)
    print(f"{pid} {tier}: held; {len(jobs)} harness runs, {tot('paths')} paths, {tot('queries')} queries ({tot('queries_unsat')} unsat), solver {tot('solver_s'):.1f}s, "
          f"{validated} paths replayed natively, build {t_build:.0f}s, wall {time.time() - T0:.0f}s")


if __name__ == "__main__":
    main()
