"""Builds the checking machinery from /repo's current sources and runs one property's check."""

import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PPP_REPO", "/repo")
BUILD = os.environ.get("PPP_BUILD", os.path.join(VERIF, "build"))
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
ENV = dict(
    os.environ,
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
    CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never",
)
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)


class Broken(Exception):
    """The check could not give an answer."""


# ---------------------------------------------------------------- files


def put(path, data):
    """Write `data` if the file does not already hold it (keeps mtimes, so cargo is not fooled)."""
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def sync(src, dst):
    keep = set()
    for root, _dirs, files in os.walk(src):
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, src)
            keep.add(rel)
            with open(p, "rb") as fh:
                put(os.path.join(dst, rel), fh.read())
    for root, _dirs, files in os.walk(dst):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, dst) not in keep:
                os.remove(p)


PPP_TOML = """[package]
name = "partial-pretty-printer"
version = "0.9.1"
edition = "%(edition)s"
[features]
serialization = ["serde"]
[dependencies]
once_cell = "1"
thiserror = "1"
serde = { version = "1", features = ["derive"], optional = true }
unicode-width = %(uw)s
"""


def mirror():
    """A mirror of /repo without its one dependency that cannot be fetched offline (a profiler)."""
    edition = "2018"
    try:
        with open(os.path.join(REPO, "Cargo.toml")) as f:
            m = re.search(r'(?m)^\s*edition\s*=\s*"(\d+)"', f.read())
            if m:
                edition = m.group(1)
    except OSError:
        pass
    b = BUILD
    if not os.path.isdir(os.path.join(REPO, "src")):
        raise Broken("no sources in %s/src" % REPO)
    sync(os.path.join(REPO, "src"), b + "/ppp_sym/src")
    sync(os.path.join(REPO, "src"), b + "/ppp_nat/src")
    sync(VERIF + "/harness/src", b + "/src")
    sync(VERIF + "/harness/stub", b + "/stub")
    stub = '{ package = "sx-unicode-width", path = "%s/stub" }' % b
    put(b + "/ppp_sym/Cargo.toml", PPP_TOML % {"edition": edition, "uw": stub})
    put(b + "/ppp_nat/Cargo.toml", PPP_TOML % {"edition": edition, "uw": '"0.1.13"'})
    for kind, ppp in (("sym", "ppp_sym"), ("nat", "ppp_nat")):
        with open(VERIF + "/harness/%s/Cargo.toml" % kind) as f:
            t = f.read()
        put(b + "/%s/Cargo.toml" % kind, t.replace("@PPP@", "%s/%s" % (b, ppp)).replace("@STUB@", b + "/stub"))
        with open(VERIF + "/harness/Cargo.%s.lock" % kind, "rb") as f:
            put(b + "/%s/Cargo.lock" % kind, f.read())
    with open(VERIF + "/harness/sym/lib.rs", "rb") as f:
        put(b + "/sym/lib.rs", f.read())
    with open(VERIF + "/harness/nat/src/main.rs", "rb") as f:
        put(b + "/nat/src/main.rs", f.read())


def cargo(args, cwd, target, what):
    env = dict(ENV, CARGO_TARGET_DIR=target)
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken("building %s failed:\n%s" % (what, r.stdout[-6000:]))


def newest(d, pre, suf):
    fs = [os.path.join(d, f) for f in os.listdir(d) if f.startswith(pre) and f.endswith(suf)]
    if not fs:
        raise Broken("no %s*%s in %s" % (pre, suf, d))
    return max(fs, key=os.path.getmtime)


def build():
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    mirror()
    t = BUILD + "/t_"

    def sym():
        d = t + "sym/release/deps"
        # the IR has to be that of the current sources: never take one left from before
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.startswith("h-"):
                    os.remove(os.path.join(d, f))
            fp = t + "sym/release/.fingerprint"
            for f in os.listdir(fp) if os.path.isdir(fp) else []:
                if f.startswith("h-"):
                    shutil.rmtree(os.path.join(fp, f))
        cargo(
            ["rustc", "--release", "--offline", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
            BUILD + "/sym", t + "sym", "the harnesses for symbolic execution",
        )
        return newest(d, "h-", ".ll")

    def engine():
        cargo(["build", "--release", "--offline"], VERIF + "/engine", t + "engine", "the symbolic executor")
        return t + "engine/release/symex"

    def nat(prof):
        a = ["build", "--offline"] + (["--release"] if prof == "release" else [])
        cargo(a, BUILD + "/nat", t + "nat", "the native replayer")
        return t + "nat/%s/nat" % ("release" if prof == "release" else "debug")

    with ThreadPoolExecutor(3) as ex:
        fs, fe = ex.submit(sym), ex.submit(engine)
        fn = ex.submit(lambda: (nat("dev"), nat("release")))
        ll, eng, (ndev, nrel) = fs.result(), fe.result(), fn.result()
    return {"ll": ll, "engine": eng, "nat": {"dev": ndev, "release": nrel}, "build_s": time.time() - t0}


# ---------------------------------------------------------------- native replay


def native(binary, cases, timeout):
    """Run cases (entry, params, inputs) natively; one result line per case, 'hang' on a timeout,
    'crash' when the process dies."""
    out = []
    todo = list(cases)
    work = BUILD + "/cases"
    os.makedirs(work, exist_ok=True)
    while todo:
        f = "%s/c%d" % (work, os.getpid())
        with open(f, "w") as fh:
            for e, p, i in todo:
                fh.write("%s %s %s\n" % (e, ",".join(map(str, p)) or "-", ",".join(map(str, i)) or "-"))
        try:
            r = subprocess.run([binary, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                               preexec_fn=limits)
            lines = [l for l in r.stdout.split("\n") if l]
            end = "crash (exit %d) %s" % (r.returncode, r.stderr.strip()[-300:])
        except subprocess.TimeoutExpired as x:
            o = x.stdout or b""
            lines = [l for l in o.decode(errors="replace").split("\n") if l]
            end = "hang (no answer in %d s)" % timeout
        lines = lines[: len(todo)]
        out += lines
        todo = todo[len(lines):]
        if todo:
            out.append(end)
            todo = todo[1:]
    return out


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


# ---------------------------------------------------------------- one check


def known_findings(prop):
    out = []
    try:
        with open(VERIF + "/known_findings.txt") as f:
            for l in f:
                m = re.match(r"known: property=(\S+) id=(\S+) entry=(\S+) params=(\S+) inputs=(\S+) (.*)", l)
                if m and m.group(1) == prop:
                    out.append(m.groups()[1:])
    except OSError:
        pass
    return out


def explore(b, r, threads, seed, budget):
    out = BUILD + "/result-%d.json" % os.getpid()
    cmd = [b["engine"], "--ll", b["ll"], "--entry", r["entry"], "--params", ",".join(map(str, r["params"])),
           "--threads", str(threads), "--time", str(budget), "--seed", str(seed), "--samples", str(r.get("samples", 64)),
           "--steps", str(r.get("steps", 20_000_000)), "--query-ms", str(r.get("query_ms", 20000)),
           "--max-viol", str(r.get("max_viol", 6)), "--out", out]
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise Broken("the symbolic executor failed (exit %d) on %s %s:\n%s" % (p.returncode, r["entry"], r["params"], (p.stdout + p.stderr)[-3000:]))
    sys.stdout.write("  " + p.stderr.strip().replace("symex: ", "") + "\n")
    with open(out) as f:
        j = json.load(f)
    os.remove(out)
    return j


MACHINERY = re.compile(r"(^|/)src/(model|pane_model|ast|cmp|sx)\.rs:|/src/h_[a-z_0-9]*\.rs:")


def judge(res, cand_id):
    """Does a native result line confirm a violation? -> (confirmed, description)"""
    if res.startswith("fail "):
        return True, "assertion %s fails" % res[5:]
    if res.startswith("panic "):
        if MACHINERY.search(res):
            return False, "machinery: " + res
        return True, res
    if res.startswith("hang") or res.startswith("crash"):
        return True, res
    return False, res


def check(prop, spec, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    threads = int(os.environ.get("SX_THREADS", "0")) or min(8, os.cpu_count() or 8)
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    ev_path = "%s/%s.json" % (EVIDENCE, prop)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    b = build()
    print("%s: built from %s in %.1f s" % (prop, REPO, b["build_s"]))
    runs = [r for r in spec["runs"] if tier in r["tiers"]]
    only = os.environ.get("SX_RUNS")
    if only:
        runs = [runs[int(i)] for i in only.split(",")]
    total_budget = spec.get("budget", {}).get(tier, 600 if tier == "quick" else 6 * 3600)
    results, violations, problems, knowns = [], [], [], []
    validated = 0
    known = known_findings(prop)
    stop = False
    for r in runs:
        left = total_budget - (time.time() - t0 - b["build_s"])
        budget = max(5.0, min(r.get("time", {}).get(tier, 1e9) if isinstance(r.get("time"), dict) else r.get("time", 1e9), left))
        j = explore(b, r, threads, seed, budget)
        j["about"], j["bounds"] = r["about"], r["bounds"]
        results.append(j)
        if j["errors"]:
            n = sum(e["n"] for e in j["errors"])
            problems.append("%s %s: %d path(s) could not be followed: %s" % (r["entry"], r["params"], n, j["errors"][0]["what"][:300]))
        if j["unknown"]:
            problems.append("%s %s: the solver gave no answer to %d queries" % (r["entry"], r["params"], j["unknown"]))
        # candidates: replay on the real code
        for c in j["candidates"]:
            case = (r["entry"], r["params"], c["inputs"])
            key = ",".join(map(str, c["inputs"]))
            conf, seen = None, []
            for prof in ("dev", "release"):
                res = native(b["nat"][prof], [case], r.get("replay_timeout", 20))[0]
                ok, desc = judge(res, c["id"])
                seen.append("%s: %s" % (prof, desc))
                if ok and conf is None:
                    conf = (prof, desc)
            if conf is None:
                problems.append("%s %s inputs %s: counterexample %s (%s) not confirmed by the real code: %s" % (r["entry"], r["params"], key, c["id"], c["what"][:200], "; ".join(seen)))
                continue
            kf = [k for k in known if k[0] == c["id"] and k[1] == r["entry"] and k[2] == (",".join(map(str, r["params"])) or "-") and k[3] == key]
            if kf:
                knowns.append(kf[0])
                continue
            path = "%s/%s-%s.txt" % (REPLAYS, prop, hashlib.sha1((r["entry"] + str(r["params"]) + key).encode()).hexdigest()[:10])
            show = native_show(b, case)
            with open(path, "w") as f:
                f.write("# property %s: %s\n# %s (found as %s: %s)\n" % (prop, spec["title"], conf[1], c["id"], c["what"][:500]))
                f.write("# confirmed natively; %s\n" % "; ".join(seen).replace("\n", " "))
                for s in c["stack"][:12]:
                    f.write("# in %s\n" % s)
                f.write("# replay: python3 /verif/check --replay %s\n" % path)
                for l in show:
                    f.write("# | %s\n" % l)
                f.write("%s %s %s\n" % (r["entry"], ",".join(map(str, r["params"])) or "-", key or "-"))
            violations.append((path, conf[1], c))
            stop = True
        # the encoding itself: replay sampled paths natively and compare everything observed
        s = j.pop("samples")
        if s and not stop:
            cases = [(r["entry"], r["params"], x["inputs"]) for x in s]
            for prof in ("dev", "release"):
                got = native(b["nat"][prof], cases, 60)
                for x, g in zip(s, got):
                    want = "done " + ",".join(map(str, x["obs"]))
                    if g.strip() != want.strip():
                        problems.append("%s %s inputs %s: symbolic and native (%s) executions differ: %s / %s" % (r["entry"], r["params"], x["inputs"], prof, want[:300], g[:300]))
                    else:
                        validated += 1
            j["sample_inputs"] = s[:3]
        if not stop and not j["errors"]:
            if j["paths"] == 0:
                problems.append("%s %s explored nothing" % (r["entry"], r["params"]))
            for c in r.get("covers", []):
                if str(c) not in j["covers"]:
                    if not j["timed_out"]:
                        problems.append("%s %s never reached cover point %d: vacuous" % (r["entry"], r["params"], c))
        if stop:
            break
    wall = time.time() - t0
    evidence(ev_path, prop, spec, tier, seed, results, violations, validated, b, wall, problems)
    for k in sorted(set(knowns)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[4]))
    if violations:
        seen = set()
        for path, desc, c in violations:
            if c["id"] in seen:
                continue
            seen.add(c["id"])
            print("  %s" % desc[:400])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if problems:
        for p in problems[:10]:
            print("PROBLEM: " + p)
        return 2
    inc = [r for r in results if r["timed_out"]]
    print("%s: held on everything explored: %d paths, %d assertions, %d queries, %.1f s in the solver%s; %.1f s" % (
        prop, sum(r["paths"] for r in results), sum(r["checks"] for r in results), sum(r["queries"] for r in results),
        sum(r["solver_s"] for r in results), "" if not inc else " (%d of %d runs stopped by their time limit)" % (len(inc), len(results)), wall))
    return 0


def native_show(b, case):
    env = dict(os.environ, SX_SHOW="1")
    f = "%s/cases/show%d" % (BUILD, os.getpid())
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, "w") as fh:
        fh.write("%s %s %s\n" % (case[0], ",".join(map(str, case[1])) or "-", ",".join(map(str, case[2])) or "-"))
    try:
        r = subprocess.run([b["nat"]["dev"], f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20, env=env, preexec_fn=limits)
        o = r.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
    return [l[:400] for l in o.decode(errors="replace").split("\n") if l][:60]


def evidence(path, prop, spec, tier, seed, results, violations, validated, b, wall, problems):
    fns = set()
    for r in results:
        for f, n, l in r["functions"]:
            m = re.search(r"ppp_sym/(src/.*)$", f) or re.match(r"(src/.*)$", f)
            if m and not f.startswith("/rustc"):
                fns.add("%s:%d %s" % (m.group(1), l, n))
    cov = {
        "states": sum(r["paths"] for r in results),
        "transitions": sum(r["forks"] + r["picks"] for r in results),
        "traces_validated_against_impl": validated,
        "exhaustive": bool(results) and all(r["exhausted"] for r in results) and not problems,
        "explanation": "states: execution paths of the real code, each covering every value of its symbolic inputs; transitions: "
                       "branch points decided by the solver (forks) or structural choices enumerated by the executor. Each assertion on "
                       "each path is decided by the SMT solver for all remaining values, unless it folded to a constant.",
        "functions_encoded": sorted(fns),
        "samples": [s for r in results for s in [{"entry": r["entry"], "params": r["params"], "inputs": x["inputs"][:40]} for x in r.get("sample_inputs", [])[:2]]],
        "runs": [
            {
                "about": r["about"], "bounds": r["bounds"], "entry": r["entry"], "params": r["params"],
                "paths": r["paths"], "cut_by_assumptions": r["infeasible"], "complete_within_bounds": r["exhausted"],
                "timed_out": r["timed_out"],
                "symbolic_branches": r["sym_branches"], "queries": r["queries"], "answered_from_cache": r["cache_hits"],
                "solver_sat": r["sat"], "solver_unsat": r["unsat"], "solver_unknown": r["unknown"],
                "solver_s": r["solver_s"], "slowest_query_s": r["max_query_s"],
                "assertions_evaluated": r["checks"], "assertions_constant_on_path": r["checks_concrete"],
                "assertion_queries": r["checks_solver"], "assertions": r["assertions"],
                "instructions": r["steps"], "longest_path_instructions": r["max_path_steps"],
                "cover_points": r["covers"], "wall_s": r["wall_s"],
            }
            for r in results
        ],
        "queries_discharged": sum(r["queries"] for r in results),
        "solver_s": sum(r["solver_s"] for r in results),
        "problems": problems[:20],
        "build_s": b["build_s"],
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": spec.get("assumptions", []), "wall_s": wall, "violations": len(violations),
    }
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    b = build()
    with open(path) as f:
        case = [l.split() for l in f if l.strip() and not l.startswith("#")][0]
    nums = lambda s: [int(x) for x in s.split(",") if x not in ("", "-")]
    case = (case[0], nums(case[1]), nums(case[2]))
    for l in native_show(b, case):
        print("| " + l)
    bad = False
    for prof in ("dev", "release"):
        res = native(b["nat"][prof], [case], 20)[0]
        ok, desc = judge(res, "")
        bad = bad or ok
        print("%s: %s" % (prof, desc))
    return 1 if bad else 0


def main(argv, props):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if argv[0] == "--build":
            b = build()
            print("built in %.1f s" % b["build_s"])
            return 0
        if argv[0] == "--replay":
            return replay(argv[1])
        prop = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(prop, props[prop], tier)
    except Broken as e:
        print("PROBLEM: %s" % e)
        return 2
