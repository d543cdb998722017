#!/usr/bin/env python3
"""mkseed.py SPEC.py...: builds planted bugs under /verif/seeded and confirms each one.
A spec file assigns SEEDS = [dict(id, prop, edits=[(file, old, new)], pkg, test, needs, breaks)]."""
import json, os, shutil, subprocess, sys, tempfile

V = "/verif/seeded"
DEMO = '''#!/bin/sh
# exit 0 when the property holds for this case, nonzero otherwise; run in the repository root
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/seed-demo-XXXXXX) || exit 0
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_seed_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
TMPDIR="$t" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local timeout 250 go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestSeedDemo$' ./%(pkg)s
'''


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)


def tests(cwd):
    r = run(["go", "test", "-count=1", "./..."], cwd, env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local"))
    return r.returncode == 0, (r.stdout + r.stderr)[-600:]


def make(s):
    d = os.path.join(V, s["id"])
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    r = os.path.join(w, "repo")
    try:
        shutil.copytree("/repo", r, symlinks=True)
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO % dict(pkg=s["pkg"]))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go.txt", "w").write(s["test"].lstrip())
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        a = run(["sh", d + "/demo.sh"], r)
        if a.returncode != 0:
            return "demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-800:]
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "%d matches in %s for %r" % (t.count(old), f, old)
            open(p, "w").write(t.replace(old, new))
        df = run(["git", "diff"], r).stdout
        open(d + "/patch.diff", "w").write(df)
        ok, out = tests(r)
        if not ok:
            return "tests fail: " + out
        b = run(["sh", d + "/demo.sh"], r)
        if b.returncode == 0:
            return "demo passes with the patch"
        if "[build failed]" in b.stdout + b.stderr:
            return "demo does not build: " + (b.stdout + b.stderr)[-600:]
        return "ok"
    finally:
        shutil.rmtree(w, ignore_errors=True)


for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    for s in g["SEEDS"]:
        print(s["id"], make(s), flush=True)
