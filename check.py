#!/usr/bin/env python3
"""Decide one property: python3 check.py <id> [quick|thorough]

Builds the executor, the LLVM IR of the property's harnesses linked with /repo's current sources,
and the native replay of the same harnesses; runs the executor on every harness; replays what it
reports, and a sample of what it predicts, on the native build; writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: no answer.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402

ENV = dict(os.environ)
ENV.update(
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
    CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never",
    CARGO_INCREMENTAL="0",
    RUSTC_WRAPPER="",
    HOME=os.environ.get("HOME", "/root"),
)
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_RUSTFLAGS"):
    ENV.pop(k, None)

# seconds for one run of the check
WALL = 780
STOP = threading.Event()


def say(*a):
    print(*a, flush=True)


def die(msg):
    say("ERROR:", msg)
    sys.exit(2)


def run(cmd, cwd, what, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        say(p.stdout[-4000:])
        die(f"{what} failed")
    return p.stdout


def source_hash():
    h = hashlib.sha256()
    for top in (f"{REPO}/trellis", f"{REPO}/dot_parser", f"{HERE}/harness/src", f"{HERE}/native/src"):
        for d, ds, fs in sorted(os.walk(top)):
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def fresh(target, manifest):
    """Cargo goes by time stamps; here the contents decide whether /repo is compiled again."""
    mark = os.path.join(target, ".sources")
    h = source_hash()
    old = ""
    if os.path.exists(mark):
        with open(mark) as fh:
            old = fh.read()
    if old != h:
        clean(target, manifest, "trellis", "dot_parser")
    os.makedirs(target, exist_ok=True)
    with open(mark, "w") as fh:
        fh.write(h)


def clean(target, manifest, *pkgs):
    if os.path.exists(os.path.join(target, "CACHEDIR.TAG")):
        a = [x for p in pkgs for x in ("-p", p)]
        run(["cargo", "clean", "--offline", "--release", "--manifest-path", manifest, "--target-dir", target] + a, HERE, "cargo clean")


def build_engine():
    with Lock("symex"):
        t = os.path.join(BUILD, "symex")
        run(["cargo", "build", "--offline", "--release", "--manifest-path", f"{HERE}/symex/Cargo.toml", "--target-dir", t], HERE, "building the executor")
        return os.path.join(t, "release", "symex")


def build_ir(feats, out):
    with Lock("ir"):
        t = os.path.join(BUILD, "ir")
        m = f"{HERE}/harness/Cargo.toml"
        fresh(t, m)
        ll = os.path.join(t, "release", "deps", "vharness.ll")
        if os.path.exists(ll):
            os.remove(ll)
        clean(t, m, "vharness")
        run(
            ["cargo", "rustc", "--offline", "--release", "--lib", "--manifest-path", m, "--target-dir", t, "--features", feats, "--",
             "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
             # switch tables of plain pointers; nothing is linked
             "-C", "relocation-model=static", "-C", "linker=true"],
            HERE, "compiling the harnesses to LLVM IR")
        shutil.copyfile(ll, out)


def build_native(feats, out):
    with Lock("native"):
        t = os.path.join(BUILD, "native")
        m = f"{HERE}/native/Cargo.toml"
        fresh(t, m)
        clean(t, m, "vnative")
        run(["cargo", "build", "--offline", "--release", "--manifest-path", m, "--target-dir", t, "--features", feats], HERE, "compiling the native replay")
        shutil.copy(os.path.join(t, "release", "vnative"), out)


def native(exe, harness, vals, timeout=20, poison="170", valgrind=False):
    """-> (outcome, observations)"""
    env = dict(ENV, VN_POISON="off" if valgrind else poison, RUST_BACKTRACE="0")
    cmd = [exe, harness, ",".join(str(v) for v in vals)]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=9"] + cmd
        timeout *= 5
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd="/")
    except subprocess.TimeoutExpired:
        return "TIMEOUT", []
    obs, out = [], None
    for l in p.stdout.decode(errors="replace").splitlines():
        i = l.find("@@")
        if i < 0:
            continue
        l = l[i + 2:]
        if l.startswith("OBS "):
            obs.append(int(l[4:]))
        else:
            out = l
    if valgrind and p.returncode == 9:
        return "MEMORY " + p.stderr.decode(errors="replace").replace("\n", " ")[:300], obs
    if p.returncode < 0:
        return f"SIGNAL {-p.returncode}", obs
    if out is None:
        return f"EXIT {p.returncode}", obs
    return out, obs


def bad(outcome):
    return outcome.split(" ")[0] in ("ASSERT", "PANIC", "SIGNAL", "TIMEOUT", "MEMORY") or (
        outcome.startswith("EXIT") and outcome != "EXIT 0")


def reproduce(exe, r):
    tried = []
    for p in ("170", "0", "255", "1"):
        o, _ = native(exe, r["harness"], r["inputs"], poison=p)
        tried.append(o)
        if bad(o):
            return o, tried
        if r.get("kind") not in ("memory", "uninit", "ub", "assert"):
            break
    if r.get("kind") in ("memory", "uninit", "ub"):
        o, _ = native(exe, r["harness"], r["inputs"], valgrind=True)
        tried.append("valgrind: " + o)
        if bad(o):
            return o, tried
    return None, tried


def explore(engine, ll, spec, tier, seed, tmp, t0):
    name = spec["harness"]
    out = os.path.join(tmp, name + ".json")
    left = int(WALL - (time.time() - t0))
    if left < 10:
        return {"harness": name, "verdict": "incomplete", "detail": "not begun: the time of the check is up"}
    limit = min(left, spec.get("time", 300 if tier == "quick" else 1500))
    cmd = [engine, "--ll", ll, "--harness", name, "--out", out, "--seed", str(seed), "--time", str(limit), "--smt-time", str(limit),
           "--wall", str(left), "--max-iter", str(spec.get("max_iter", 2000)), "--samples", str(spec.get("samples", 12)),
           "--chunk", str(spec.get("chunk", 256)), "--jobs", str(spec.get("jobs", 4))]
    if tier == "thorough":
        cmd.append("--cross")
    if STOP.is_set():
        return {"harness": name, "verdict": "skipped", "detail": ""}
    try:
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left + 15)
    except subprocess.TimeoutExpired:
        return {"harness": name, "verdict": "incomplete", "detail": "the time of the check is up"}
    try:
        with open(out) as fh:
            return json.load(fh)
    except (OSError, ValueError):
        return {"harness": name, "verdict": "error", "detail": f"executor ended with {p.returncode}: {p.stdout[-500:]}"}


def main():
    if sys.argv[1:] == ["setup"]:
        build_engine()
        say("the executor is built")
        return
    if len(sys.argv) < 2 or sys.argv[1] not in PLAN:
        die("usage: check.py <property> [quick|thorough]; properties: " + " ".join(sorted(PLAN)))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3:]
    if tier not in ("quick", "thorough"):
        die("tier is quick or thorough")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    feats = plan["feature"] + (",thorough" if tier == "thorough" else "")
    tmp = tempfile.mkdtemp(prefix="vcheck-")
    try:
        code = go(prop, tier, seed, plan, feats, tmp, t0, rdir, only)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def go(prop, tier, seed, plan, feats, tmp, t0, rdir, only):
    ll, exe = os.path.join(tmp, "h.ll"), os.path.join(tmp, "vnative")
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(build_engine), ex.submit(build_ir, feats, ll), ex.submit(build_native, feats, exe)]
        engine = fs[0].result()
        fs[1].result()
        fs[2].result()
    t_build = time.time() - t0
    specs = [s for s in plan["harnesses"] if (tier == "thorough" or not s.get("thorough")) and (not only or s["harness"] in only)]
    results, violation, mism, nosamp = [], None, [], 0
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        jobs = {ex.submit(explore, engine, ll, s, tier, seed, tmp, t0): s for s in specs}
        for j in cf.as_completed(jobs):
            s, r = jobs[j], j.result()
            r["spec"] = s
            results.append(r)
            if r["verdict"] in ("violation", "incomplete") and r.get("inputs") is not None and not violation:
                o, tried = reproduce(exe, r)
                r["native"] = tried
                if o:
                    violation = (r, o)
                    STOP.set()
                elif r["verdict"] == "violation":
                    r["verdict"] = "error"
                    r["detail"] = f"counterexample {r['inputs']} ({r['detail']}) does not reproduce natively: {tried}"
            elif r["verdict"] == "ok":
                missing = [c for c in s.get("reach", [1]) if c not in r["reached"]]
                if missing:
                    r["verdict"] = "error"
                    r["detail"] = f"vacuous: reach points {missing} were not reached"
                for x in r["samples"]:
                    o, obs = native(exe, r["harness"], x["in"])
                    if o.startswith("PANIC-ALLOWED"):
                        continue
                    if o != "OK" or obs != x["obs"]:
                        if bad(o):
                            violation = violation or (dict(r, inputs=x["in"], detail="native run of a sampled input: " + o, kind="native"), o)
                        mism.append((r["harness"], x["in"], x["obs"], o, obs))
                    else:
                        nosamp += 1
            say(f"  {r['harness']}: {r['verdict']} {r['detail']} ({r.get('wall', 0):.1f} s, {r.get('refuted_checks', 0)}+{r.get('open_checks', 0)} checks, {r.get('refutations', 0)} refutations, z3 {r.get('smt_time', 0):.1f} s)")
    # a violation seen only by the native run of a sample means the executor missed it
    if violation and violation[0].get("kind") == "native":
        say("note: found by the native run of a sampled input, not by the executor")
    errors = [r for r in results if r["verdict"] == "error"]
    oks = [r for r in results if r["verdict"] == "ok"]
    part = [r for r in results if r["verdict"] == "incomplete"]
    fns = {}
    for r in results:
        for n, c, h in r.get("functions", []):
            fns[n] = (c, h)
    own = sorted(n for n in fns if "trellis" in n or "dot_parser" in n)
    tot = lambda k: sum(r.get(k, 0) for r in results)
    cov = {
        "states": tot("forks") + tot("ends") + len(results),
        "transitions": tot("steps"),
        "traces_validated_against_impl": nosamp,
        "samples": [{"harness": r["harness"], **x} for r in oks for x in r["samples"][:2]][:12],
        "incomplete_harnesses": [r["harness"] for r in part],
        "harnesses": [
            {
                "harness": r["harness"],
                "verdict": r["verdict"],
                "detail": r["detail"],
                "bounds": r["spec"].get("bounds_thorough" if tier == "thorough" and "bounds_thorough" in r["spec"] else "bounds", ""),
                "unknowns": len(r.get("domains", [])),
                "domains": r.get("domains", [])[:40],
                "merged_states": r.get("merges", 0),
                "max_loop_iterations": r.get("max_loop_iterations", 0),
                "assertion_sites": r.get("assertion_sites", 0),
                "assertion_instances": r.get("assertions", 0),
                "checks_reduced_to_refutations": r.get("refuted_checks", 0),
                "checks_sent_whole": r.get("open_checks", 0),
                "distinct_refutations_confirmed_by_smt": r.get("refutations", 0) if r["verdict"] == "ok" else 0,
                "truth_table_steps_confirmed_by_smt": r.get("lemmas", 0) if r["verdict"] == "ok" else 0,
                "smt_queries": r.get("smt_queries", 0),
                "smt_seconds": r.get("smt_solvers", {}),
                "internal_sat_queries": r.get("pruning_queries", 0),
                "internal_sat_seconds": r.get("pruning_time", 0),
                "wall_s": r.get("wall", 0),
            }
            for r in sorted(results, key=lambda r: r["harness"])
        ],
        "functions_encoded": len(fns),
        "functions_encoded_of_repo": own,
        "ir_instructions_encoded": sum(c for c, _ in fns.values()),
        "smt_queries": tot("smt_queries"),
        "smt_seconds": round(tot("smt_time"), 3),
        "obligations_discharged": sum(r.get("refuted_checks", 0) + r.get("open_checks", 0) for r in oks),
        "refutations_confirmed_by_smt": sum(r.get("refutations", 0) for r in oks),
        "truth_table_steps_confirmed_by_smt": sum(r.get("lemmas", 0) for r in oks),
        "vacuity_witnesses": sum(1 for r in oks if r.get("witness_sat")),
        "build_seconds": round(t_build, 1),
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": plan.get("assumptions", []) + [
            "rustc and LLVM preserve the semantics of the sources in the IR that is executed (opt-level 2, overflow checks on)",
            "the executor's model of LLVM IR; compared with native runs on the sampled inputs",
            "allocation does not fail; printing has no effect; panics end the run",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if violation:
        r, o = violation
        path = os.path.join(rdir, f"{prop}-{r['harness']}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "harness": r["harness"], "features": feats, "inputs": r["inputs"], "kind": r.get("kind"), "detail": r["detail"],
                       "native_outcome": o,
                       "replay": f"python3 {HERE}/replay.py {path}"}, fh, indent=1)
        say(f"{r['harness']} inputs {r['inputs']}: {r['detail']}; natively: {o}")
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    if mism:
        for m in mism[:5]:
            say("  executor and native run differ:", m)
        die("the executor's prediction and the native run differ")
    if errors:
        die("; ".join(f"{r['harness']}: {r['detail']}" for r in errors)[:2000])
    # a limit ended these: what they explored holds, the rest of their bounds is not covered
    for r in part:
        say(f"INCOMPLETE: property={prop} {r['harness']}: {r['detail']}")
    if not oks:
        die("no harness was explored to its end")
    say(f"OK property={prop} tier={tier} {len(oks)} harnesses{f' ({len(part)} more incomplete)' if part else ''}, {cov['obligations_discharged']} obligations, {cov['smt_queries']} SMT queries, {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    main()
