#!/usr/bin/env python3
"""Decides one property on /repo's present working tree.

    check.py PROP            quick or thorough, as VERIF_TIER says

1. builds, from /repo's working tree: the compiler's MIR of the three crates, and the explorer (--cfg verif);
2. the deductive part: every contract that bears on the property is verified again on that MIR (pydv/prove.py);
3. the bounded part: the explorer plays the real code (what is not proved is decided by it, within its bounds);
4. writes evidence/PROP.json, prints VIOLATION / KNOWN-FINDING lines, exits 0 or 1.
"""
import json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
TOOLCHAIN = "1.95"
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout or ""
        return 124, out if isinstance(out, str) else out.decode("utf-8", "replace")
    except OSError as x:
        return 127, str(x)


# ---------------------------------------------------------------- builds

def build_mir(res):
    """the MIR of the crates, as the compiler has it"""
    try:
        md = os.path.join(B, "md")
        rc, out = sh(["cargo", "+nightly", "build", "--offline"], {"CARGO_TARGET_DIR": md, "CARGO_NET_OFFLINE": "true"}, os.path.join(V, "mirdump"))
        if rc:
            res["mir_error"] = "the MIR dumper doesn't build: " + out[-2000:]
            return
        mir = os.path.join(B, "mir")
        shutil.rmtree(mir, ignore_errors=True)
        os.makedirs(mir)
        _, sysroot = sh(["rustc", "+nightly", "--print", "sysroot"])
        env = {"LD_LIBRARY_PATH": sysroot.strip() + "/lib", "MIRDUMP_OUT": mir, "MIRDUMP_CRATES": "bladeink,bladeink_compiler,rinklecate",
               "CARGO_TARGET_DIR": os.path.join(B, "nt"), "CARGO_NET_OFFLINE": "true", "RUSTC_WORKSPACE_WRAPPER": os.path.join(md, "debug/mirdump")}
        pk = ["-p", "bladeink", "-p", "bladeink-compiler", "-p", "rinklecate"]
        sh(["cargo", "+nightly", "clean", *pk, "--offline"], env, REPO)
        rc, out = sh(["cargo", "+nightly", "check", *pk, "--offline"], env, REPO)
        if rc:
            res["mir_error"] = "no MIR: " + out[-2000:]
            return
        res["mir"] = mir
    except Exception as x:
        res["mir_error"] = repr(x)


def cargo_harness(target, features=(), extra=()):
    env = {"RUSTUP_TOOLCHAIN": TOOLCHAIN, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "--cfg verif", "CARGO_TARGET_DIR": os.path.join(B, target)}
    cmd = ["cargo", "build", "--offline", *extra]
    if features:
        cmd += ["--features", ",".join(features)]
    rc, out = sh(cmd, env, os.path.join(V, "harness"))
    return rc, out


def build_harness(prop, res):
    try:
        rc, out = cargo_harness("h")
        if rc:
            res["harness_error"] = out[-3000:]
            return
        vh = os.path.join(B, "h/debug/vh")
        args = []
        if prop in ("C03",):
            rc, out = cargo_harness("h", extra=["--release"])
            if rc == 0:
                args += ["--other", os.path.join(B, "h/release/vh")]
        if prop in ("C14", "C15"):
            rc, out = cargo_harness("hs", ["stream"])
            if rc == 0:
                args += ["--other", os.path.join(B, "hs/debug/vh")]
            else:
                res["harness_error"] = out[-3000:]
                return
        if prop in ("C20",):
            env = {"RUSTUP_TOOLCHAIN": TOOLCHAIN, "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": os.path.join(B, "cli")}
            rc, out = sh(["cargo", "build", "--offline", "-p", "rinklecate"], env, REPO)
            if rc:
                res["harness_error"] = out[-3000:]
                return
            args += ["--tool", os.path.join(B, "cli/debug/rinklecate")]
        res["vh"], res["vh_args"] = vh, args
    except Exception as x:
        res["harness_error"] = repr(x)


# ---------------------------------------------------------------- the two parts

def prove(prop, mir, tier, res):
    out = os.path.join(B, "prove-%s.json" % prop)
    if os.path.exists(out):
        os.remove(out)
    limit = 420
    rc, txt = sh(["python3-vt", os.path.join(V, "pydv/prove.py"), prop, "--mir", mir, "--out", out, "--tier", tier], timeout=limit + 120)
    try:
        with open(out) as f:
            res["proof"] = json.load(f)
    except Exception:
        res["proof_error"] = "prover ended with %s: %s" % (rc, txt[-2000:])


def explore(prop, vh, args, tier, seed, budget, shards, res):
    procs = []
    os.makedirs(os.path.join(B, "ex"), exist_ok=True)
    for k in range(shards):
        base = os.path.join(B, "ex/%s-%d" % (prop, k))
        for x in (".json", ".case"):
            if os.path.exists(base + x):
                os.remove(base + x)
        cmd = [vh, prop, "--seed", str(seed), "--tier", tier, "--budget", str(budget), "--shard", "%d/%d" % (k, shards), "--out", base + ".json", "--case-file", base + ".case", *args]
        e = dict(os.environ)
        e["VERIF_REPO"] = REPO
        procs.append((k, base, cmd, subprocess.Popen(cmd, env=e, cwd=B, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    tot = {"evaluations": 0, "distinct_nontrivial": 0, "skipped": 0, "samples": [], "failures": [], "processes": shards, "died": []}
    end = time.time() + budget * 2 + 120
    for k, base, cmd, p in procs:
        try:
            out, _ = p.communicate(timeout=max(1, end - time.time()))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            rc = "timeout"
        out = (out or b"").decode("utf-8", "replace")
        j = None
        if os.path.exists(base + ".json"):
            try:
                j = json.load(open(base + ".json"))
            except Exception:
                pass
        if j is not None:
            tot["evaluations"] += j["evaluations"]
            tot["distinct_nontrivial"] += j["distinct_nontrivial"]
            tot["skipped"] += j.get("skipped", 0)
            tot["samples"] += j["samples"][:2]
            for f in j["failures"]:
                f["cmd"] = cmd
                tot["failures"].append(f)
        case = ""
        if os.path.exists(base + ".case"):
            case = open(base + ".case", errors="replace").read()
        if rc == 3 or (isinstance(rc, int) and rc < 0 and rc != -9):
            what = "hang" if rc == 3 else "the process dies (signal %d)" % -rc
            name, _, inp = case.partition("\n")
            try:
                inp = json.loads(inp)
            except Exception:
                pass
            tot["failures"].append({"kind": what, "case": name, "detail": out[-1500:], "input": inp, "cmd": cmd})
        elif j is None:
            tot["died"].append("process %d ended with %s: %s" % (k, rc, out[-400:]))
    res["explored"] = tot


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    known, fixed = [], []
    try:
        for line in open(os.path.join(V, "KNOWN_FINDINGS")):
            line = line.rstrip("\n")
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)$", line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
            if line.startswith("fixed: property=%s " % prop):
                fixed.append(line)
    except OSError:
        pass
    return known, fixed


# ---------------------------------------------------------------- main

INFO = json.load(open(os.path.join(V, "checks.json")))


def main():
    prop = sys.argv[1]
    tier = "thorough" if (os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv) else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    info = INFO[prop]
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    res = {}
    has_proof = info.get("prove", True)
    has_explore = info.get("explore", True)

    def side_a():
        if has_proof:
            build_mir(res)
            log("MIR", res.get("mir") or res.get("mir_error"))
            if "mir" in res:
                prove(prop, res["mir"], tier, res)
                log("proved" if "proof" in res else res.get("proof_error"))

    def side_b():
        if has_explore:
            build_harness(prop, res)
            log("explorer", res.get("vh") or res.get("harness_error"))
            if "vh" in res:
                budget = info.get("budget", 35) if tier == "quick" else info.get("thorough_budget", 300)
                explore(prop, res["vh"], res["vh_args"], tier, seed, budget, info.get("shards", 5), res)
                log("explored", {k: (len(v) if isinstance(v, list) else v) for k, v in res["explored"].items()})

    ta, tb = threading.Thread(target=side_a), threading.Thread(target=side_b)
    ta.start(); tb.start(); ta.join(); tb.join()

    known, fixed = known_findings(prop)
    violations, shown = [], []
    ex = res.get("explored")
    if ex:
        for f in ex["failures"]:
            key = "%s|%s|%s" % (f["kind"], f["case"], str(f["detail"])[:2000])
            hit = [t for m, t in known if re.search(m, key)]
            if hit:
                if hit[0] not in shown:
                    shown.append(hit[0])
            else:
                violations.append(f)
    replay = os.path.join(V, "evidence/replay-%s.json" % prop)
    lines = []
    proof = res.get("proof") or {}
    broken = proof.get("broken", [])
    if violations:
        json.dump({"property": prop, "found_by": "exploration of the real code", "failures": violations, "failed_obligations": broken,
                   "how": "run the command of a failure with --only '<case>' (after check.py built it)"}, open(replay, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, replay))
    elif broken:
        hit = [b for b in broken if b.get("input") is not None]
        json.dump({"property": prop, "found_by": "failed proof obligations", "failed_obligations": broken}, open(replay, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if hit else " no-failing-input-found"))
    elif os.path.exists(replay):
        os.remove(replay)

    notes = [res[k] for k in ("mir_error", "proof_error", "harness_error") if k in res]
    if ex and ex["died"]:
        notes += ex["died"]
    cov = {
        "explanation": info["explanation"],
        "obligations": proof.get("obligations", 0), "discharged": proof.get("discharged", 0),
        "checker_cmd": "python3-vt pydv/prove.py %s --mir build/mir" % prop,
        "back_end": proof.get("back_end", ""), "solver_s": proof.get("solver_s", 0),
        "functions_under_contract": proof.get("functions", []),
        "undecided_obligations": proof.get("undecided", []),
        "lost_anchors": proof.get("lost", []),
        "trusted_base": proof.get("trusted", []) + info.get("trusted", []),
        "bounded_part": {"rule": info.get("rule", ""), "processes": ex["processes"] if ex else 0},
        "evaluations": ex["evaluations"] if ex else 0,
        "distinct_nontrivial": ex["distinct_nontrivial"] if ex else 0,
        "rule": info.get("rule", ""),
        "samples": (ex["samples"] if ex else [])[:10] or ["none"],
        "notes": notes,
        "fixed_findings": fixed,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": info["level"], "coverage": cov,
          "assumptions": info.get("assumptions", []) + proof.get("assumptions", []),
          "wall_s": round(time.time() - T0, 2), "violations": len(violations) + (0 if violations else len(broken))}
    with open(os.path.join(V, "evidence/%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    for t in shown:
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    for n in notes:
        log("note:", n[:600])
    log("obligations %d, discharged %d, undecided %d, broken %d; evaluations %d, failures %d" % (
        cov["obligations"], cov["discharged"], len(cov["undecided_obligations"]), len(broken), cov["evaluations"], len(violations)))
    for f in violations[:3]:
        log("  ", f["kind"], "|", f["case"][:200], "|", str(f["detail"])[:300].replace("\n", " / "))
    for b in broken[:5]:
        log("  ", b.get("obligation"), str(b.get("goal"))[:200])
    for l in lines:
        print(l, flush=True)
    sys.exit(1 if lines else 0)


if __name__ == "__main__":
    main()
