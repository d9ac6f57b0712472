#!/usr/bin/env python3
"""check.py <property> -- decides one property of /repo's current source.

1. builds govc (the deductive verifier in /verif/govc) into a scratch directory,
2. has it verify every function under contract for the property (and every
   contract those functions call) against the SSA form of /repo's sources,
3. runs the bounded cross-check of the property (real code against an oracle),
   which also serves to find a failing input when an obligation fails,
4. writes evidence/<property>.json.
"""
import json, os, shutil, subprocess, sys, tempfile, time, signal, threading

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOENV = dict(os.environ, HOME="/root", GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off",
             GOTELEMETRY="off", CGO_ENABLED="0")
GOENV["PATH"] = "/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "")

def run(cmd, cwd, env, timeout, mem_gb=None):
    """Runs cmd in its own process group; returns (rc, output); rc is None on a timeout."""
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=pre)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode(errors="replace")

def build_govc(scratch):
    exe = os.path.join(scratch, "govc")
    rc, out = run(["go", "build", "-o", exe, "."], os.path.join(HERE, "govc"), GOENV, 600)
    if rc != 0:
        print("cannot build govc:\n" + out)
        sys.exit(2)
    return exe

def verify(exe, prop, scratch, slow, timeout, tag):
    out = os.path.join(scratch, "report%s.json" % tag)
    env = dict(GOENV, GOVC_SLOW=str(slow))
    rc, log = run([exe, "-repo", REPO, "-contracts", os.path.join(HERE, "contracts"), "-prop", prop, "-json", out], HERE, env, timeout)
    rep = None
    if os.path.exists(out):
        with open(out) as f:
            rep = json.load(f)
    return rc, log, rep

def failures(rc, log, rep):
    """The open obligations of a run: a list of dicts."""
    if rep is None:
        why = "the verifier ran out of time" if rc is None else "the verifier stopped without a report"
        return [{"kind": "verifier", "label": why, "output": log[-4000:]}]
    out = []
    if rep.get("load_error"):
        out.append({"kind": "load", "label": rep["load_error"]})
    for f in rep.get("functions") or []:
        if f.get("error"):
            out.append({"func": f["func"], "kind": "function", "label": f["error"]})
    for v in rep.get("vcs") or []:
        if v["verdict"] != "unsat":
            out.append(v)
    if rc != 0 and not out:
        out.append({"kind": "verifier", "label": "exit status %s" % rc, "output": log[-4000:]})
    return out

def build_replay(prop, scratch, race=False):
    """Builds the cross-check inside /repo's module through an overlay; nothing is written to /repo."""
    src = os.path.join(HERE, "replay", prop.lower())
    if not os.path.isdir(src):
        return None, "no cross-check"
    repl = {}
    base = os.path.join(REPO, "zz_verif_replay")
    for d in ("vr", prop.lower()):
        for root, _, names in os.walk(os.path.join(HERE, "replay", d)):
            for n in names:
                if n.endswith(".go"):
                    full = os.path.join(root, n)
                    repl[os.path.join(base, os.path.relpath(full, os.path.join(HERE, "replay")))] = full
    ov = os.path.join(scratch, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": repl}, f)
    exe = os.path.join(scratch, "replay")
    opts, env = [], dict(GOENV, GOFLAGS="")
    if race:
        opts, env["CGO_ENABLED"] = ["-race"], "1"
    rc, out = run(["go", "build", "-mod=readonly"] + opts + ["-overlay", ov, "-o", exe, "./zz_verif_replay/" + prop.lower()], REPO, env, 600)
    if rc != 0:
        return None, out
    return exe, out

def run_replay(exe, prop, scratch, timeout):
    out = os.path.join(scratch, "replay.json")
    env = dict(GOENV, GORACE="halt_on_error=1")
    env.setdefault("VERIF_SEED", "1")
    work = os.path.join(scratch, "work")
    os.makedirs(work, exist_ok=True)
    rc, log = run([exe, out], work, env, timeout, mem_gb=None)
    if os.path.exists(out):
        with open(out) as f:
            return json.load(f), log
    if rc is None:
        return {"failed": False, "cases": 0, "note": "cross-check ran out of time"}, log
    # a crash the program could not report: run again with a trace of the current case
    tr = os.path.join(scratch, "trace")
    rc, log = run([exe, out, tr], work, env, timeout, mem_gb=None)
    if os.path.exists(out):
        with open(out) as f:
            return json.load(f), log
    inp = ""
    if os.path.exists(tr):
        with open(tr, errors="replace") as f:
            inp = f.read()
    if rc is None:
        return {"failed": False, "cases": 0, "note": "cross-check ran out of time"}, log
    return {"failed": True, "cases": 0, "failing_input": inp or "(unknown)", "detail": "the program died: " + log[:3000] + "\n...\n" + log[-1000:]}, log

def known(prop):
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                out.append(l.strip()[len("finding: property=%s " % prop):])
    return out

def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    props = {p["id"]: p for p in json.load(open(os.path.join(HERE, "props.json")))}
    info = props[prop]
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay_path = os.path.join(evdir, prop + ".replay.txt")
    for f in (replay_path, os.path.join(evdir, prop + ".json")):
        if os.path.exists(f):
            os.unlink(f)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        exe = build_govc(scratch)
        res = {}
        def rp():
            e, out = build_replay(prop, scratch, info.get("race", False))
            if e is None:
                res["replay"], res["log"] = None, out
                return
            res["replay"], res["log"] = run_replay(e, prop, scratch, 560 if tier == "thorough" else 240)
        # proof first (the solvers use every core), then the cross-check
        rc, log, rep = verify(exe, prop, scratch, 1, 330, "")
        fails = failures(rc, log, rep)
        rp()
        replay = res["replay"]
        attempts = 1
        if fails and not (replay and replay.get("failed")) and rc is not None and rc in (0, 1):
            # once more with four times the solver limits before calling it a failure
            rc2, log2, rep2 = verify(exe, prop, scratch, 4, 300, "2")
            f2 = failures(rc2, log2, rep2)
            attempts = 2
            if rep2 is not None and not f2:
                fails, rep, log, rc = f2, rep2, log2, rc2
        found = bool(replay and replay.get("failed"))
        if res["replay"] is None and os.path.isdir(os.path.join(HERE, "replay", prop.lower())):
            fails.append({"kind": "cross-check", "label": "the cross-check does not build against the current source", "output": res["log"][-3000:]})
        vcs = (rep or {}).get("vcs") or []
        funcs = (rep or {}).get("functions") or []
        back = {}
        for v in vcs:
            if v["verdict"] == "unsat":
                back[v["backend"]] = back.get(v["backend"], 0) + 1
        used = (rep or {}).get("externs") or []
        violation = bool(fails) or found
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "proof",
            "coverage": {
                "obligations": len(vcs) if vcs else max(1, len(fails)),
                "discharged": sum(1 for v in vcs if v["verdict"] == "unsat"),
                "checker_cmd": "govc -repo /repo -contracts contracts -prop %s (run by check.py)" % prop,
                "trusted_base": [
                    "govc (/verif/govc): translation of go/ssa to verification conditions",
                    "golang.org/x/tools/go/ssa and go/types as the reading of the Go source",
                    "z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
                ] + ["assumed contract or intrinsic: " + u for u in used if u.startswith(("intrinsic ", "extern "))],
                "functions_under_contract": [{"function": f["func"], "instance": f.get("instance", ""), "exits": f["exits"], "seconds": round(f["sec"], 2),
                                              "partial_correctness_only": bool(f.get("partial"))} for f in funcs],
                "inlined_functions": [u[len("inlined "):] for u in used if u.startswith("inlined ")],
                "contracts_used_at_calls": [u[len("contract "):] for u in used if u.startswith("contract ")],
                "discharged_by": back,
                "obligation_kinds": {k: sum(1 for v in vcs if v["kind"] == k) for k in sorted({v["kind"] for v in vcs})},
                "solver_queries": (rep or {}).get("queries", 0),
                "solver_seconds": round((rep or {}).get("solver_sec", 0), 2),
                "attempts": attempts,
                "bounded_cross_check": {
                    "note": "bounded, never counted as proved",
                    "cases": (replay or {}).get("cases", 0), "distinct": (replay or {}).get("distinct", 0),
                    "bounds": (replay or {}).get("bounds", []), "samples": (replay or {}).get("samples", [])[:8],
                    "wall_s": round((replay or {}).get("wall_s", 0), 2),
                    **({"remark": replay["note"]} if replay and replay.get("note") else {}),
                },
            },
            "assumptions": COMMON + info.get("assumptions", []) + ["axiom: " + a for a in ((rep or {}).get("axioms") or [])],
            "wall_s": round(time.time() - t0, 2),
            "violations": (1 if found else 0) + len(fails),
        }
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in known(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        if not violation:
            print("%s: %d obligations of %d functions discharged, %d cross-check cases, %.1fs" % (
                prop, ev["coverage"]["discharged"], len(funcs), (replay or {}).get("cases", 0), time.time() - t0))
            return 0
        with open(replay_path, "w") as f:
            f.write("property %s: %s\n" % (prop, info["title"]))
            if found:
                f.write("\nfailing input (run against the code in /repo by replay/%s, seed %d):\n%s\n\n%s\n" % (
                    prop.lower(), seed, replay.get("failing_input"), replay.get("detail")))
            else:
                f.write("\nno failing input was found; bounded cross-check: %s cases\n" % (replay or {}).get("cases", 0))
            f.write("\nopen obligations: %d\n" % len(fails))
            for v in fails[:40]:
                f.write("\n%s %s | %s | %s | path %s | solver: %s\n" % (v.get("func", ""), v.get("kind", ""), v.get("label", ""), v.get("pos", ""), v.get("path", ""), v.get("verdict", "")))
                if v.get("output"):
                    f.write(v["output"] + "\n")
                if v.get("model"):
                    f.write("solver model:\n" + v["model"][:3000] + "\n")
        for v in fails[:10]:
            print("open: %s %s | %s | %s" % (v.get("func", ""), v.get("kind", ""), str(v.get("label", ""))[:300], v.get("pos", "")))
        if found:
            print("failing input: %s\n  %s" % (str(replay.get("failing_input"))[:1000], str(replay.get("detail"))[:1000]))
            print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay_path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

COMMON = [
    "the verifier govc, go/ssa and the SMT solvers are sound",
    "no re-entrant access to the object under verification from callbacks or finalizers",
    "memory is not exhausted; slices and strings are no longer than 2^60",
    "the private representation of an object is reached only through its own methods (each constructor is proved to return fresh storage)",
]

if __name__ == "__main__":
    sys.exit(main())
