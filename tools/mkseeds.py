#!/usr/bin/env python3
"""mkseeds.py SPEC.py [id...] -- writes /verif/seeded/<id> from a list SEEDS and confirms each one
(applies, builds, stable tests pass, demo 0/nonzero), then says whether the property's check catches it.
It applies each patch to /repo and undoes it straight afterwards."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
DEMO = '''#!/bin/bash
# cwd: /repo. Runs demo.go inside the module through an overlay; writes only to a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go"}}' "$PWD" "$D" > "$T/ov.json"
go build -mod=readonly -overlay "$T/ov.json" -o "$T/demo" ./zz_demo || exit 3
cd "$T" && timeout 120 ./demo
'''
def sh(cmd, cwd="/repo"):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
assert sh("git status --short")[1] == "", "repo is dirty"
for s in ns["SEEDS"]:
    if want and s["id"] not in want:
        continue
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join("/repo", f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        sh("gofmt -l .")
        rc, diff = sh("git diff")
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        if "demo" in s:
            open(os.path.join(d, "demo.go"), "w").write(s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        else:
            for n, c in s["files"].items():
                open(os.path.join(d, n), "w").write(c)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        b = sh("bash /opt/vp/build.sh")
        sh("bash /opt/vp/test.sh /tmp/seed_test.json")
        r = json.load(open("/tmp/seed_test.json"))
        passed = set(r.get("passed", []))
        miss = sorted(stable - passed)
        dp, dpo = sh("bash %s/demo.sh" % d)
        ck, cko = sh("python3 check.py " + s["prop"], cwd=V)
    finally:
        sh("git checkout -- .")
    dc, dco = sh("bash %s/demo.sh" % d)
    ok = b[0] == 0 and not miss and dp not in (0, 3) and dc == 0
    print("%s %s: build=%d missing=%s demo patched=%d clean=%d check=%d %s" % ("OK " if ok else "BAD", s["id"], b[0], miss[:3], dp, dc, ck,
          [l for l in cko.splitlines() if l.startswith("VIOLATION")]))
    if not ok:
        print(b[1][-500:], dpo[-500:], dco[-500:])
    print("   ", " / ".join(l[:160] for l in cko.splitlines()[:3]))
