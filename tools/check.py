#!/usr/bin/env python3
"""check.py PROPERTY: prove the contracts of a property against /repo's working
tree; on failed obligations look for a failing input on the real code."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GOVC_REPO", "/repo")
GOENV = dict(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", HOME=os.environ.get("HOME", "/root"))
GOVC = os.path.join(VERIF, ".build", "govc")


def env(**k):
    e = dict(os.environ)
    e.update(GOENV)
    e.update(k)
    return e


def build():
    """Builds the generator when its binary is missing or older than its source."""
    src = os.path.join(VERIF, "govc")
    files = [os.path.join(src, f) for f in os.listdir(src) if f.endswith((".go", ".mod", ".sum"))]
    if os.path.exists(GOVC) and all(os.path.getmtime(f) <= os.path.getmtime(GOVC) for f in files):
        return
    os.makedirs(os.path.dirname(GOVC), exist_ok=True)
    tmp = GOVC + ".%d" % os.getpid()
    subprocess.run(["go", "build", "-o", tmp, "."], cwd=src, env=env(), check=True)
    os.replace(tmp, GOVC)


def harness(prop, budget_ms, seed, scratch):
    """Runs the property's in-package search on the real code.
    Returns (failures, stats, notes)."""
    base = os.path.join(VERIF, "harness", prop)
    fails, stats, notes = [], [], []
    if not os.path.isdir(base):
        return fails, stats, ["no replay harness"]
    common = open(os.path.join(VERIF, "harness", "common", "common.go.txt")).read()
    for d in sorted(os.listdir(base)):
        pkg = d.replace("__", "/")
        repl = {}
        files = [f for f in sorted(os.listdir(os.path.join(base, d))) if f.endswith(".go.txt")]
        pname = None
        for f in files:
            p = os.path.join(base, d, f)
            m = re.search(r"^package (\w+)", open(p).read(), re.M)
            pname = m.group(1)
            repl[os.path.join(REPO, pkg, "zz_verif_" + f[:-4].replace(".go", "") + "_test.go")] = p
        if not pname:
            continue
        cf = os.path.join(scratch, d + "_common_test.go")
        open(cf, "w").write(common.replace("package PKG", "package " + pname))
        repl[os.path.join(REPO, pkg, "zz_verif_common_test.go")] = cf
        ov = os.path.join(scratch, d + "_overlay.json")
        json.dump({"Replace": repl}, open(ov, "w"))
        out = os.path.join(scratch, d + "_out.jsonl")
        open(out, "w").close()
        tmp = os.path.join(scratch, d + "_tmp")
        os.makedirs(tmp, exist_ok=True)
        try:
            r = subprocess.run(["go", "test", "-overlay", ov, "-vet=off", "-count=1", "-run", "^TestVerif", "-timeout", "%ds" % (budget_ms // 1000 * 2 + 60), "./" + pkg],
                               cwd=REPO, env=env(VERIF_OUT=out, VERIF_BUDGET_MS=str(budget_ms), VERIF_SEED=str(seed), VERIF_TMP=tmp, TMPDIR=tmp),
                               capture_output=True, text=True, timeout=budget_ms / 1000 * 2 + 150)
        except subprocess.TimeoutExpired:
            notes.append("harness %s: timed out" % d)
            continue
        n = 0
        for line in open(out):
            try:
                x = json.loads(line)
            except ValueError:
                continue
            n += 1
            (fails if x.get("fail") else stats).append(dict(x, pkg=pkg))
        if r.returncode != 0 and not any(f["pkg"] == pkg for f in fails):
            tail = (r.stdout + r.stderr)[-1500:]
            # a crash or a deadlock inside the code under test is a failure as such
            cur = os.path.join(tmp, "current")
            if "build failed" in tail or "setup failed" in tail:
                notes.append("harness %s does not build against this tree: %s" % (d, tail))
            elif os.path.exists(cur) and ("panic:" in tail or "fatal error:" in r.stdout + r.stderr or "panic:" in r.stdout + r.stderr):
                fails.append(dict(fail=True, case="crash", input=open(cur).read()[:4000], detail=(r.stdout + r.stderr)[:3000], pkg=pkg))
            else:
                notes.append("harness %s: %s" % (d, tail))
    return fails, stats, notes


def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) (\w+)=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rc = 2
    try:
        rc = run(prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


class Tally:
    def __init__(self):
        self.bad, self.known_hit, self.obls, self.disch = [], [], 0, 0
        self.solver_ms, self.by_solver = {}, {}
        self.funcs, self.lemmas, self.notes, self.inlined = [], [], set(), set()


def tally(rep, kn):
    t = Tally()
    for u in rep.get("units") or []:
        t.obls += u["obligations"]
        t.disch += u["obligations"] - len(u.get("failed") or [])
        for k, v in (u.get("solver_ms") or {}).items():
            t.solver_ms[k] = t.solver_ms.get(k, 0) + v
        for k, v in (u.get("by_solver") or {}).items():
            t.by_solver[k] = t.by_solver.get(k, 0) + v
        (t.lemmas if u["kind"] == "lemma" else t.funcs).append("%s (%d)" % (u["name"], u["obligations"]))
        t.notes.update(u.get("notes") or [])
        t.inlined.update(u.get("inlined") or [])
        if u.get("error"):
            t.bad.append(dict(unit=u["name"], kind="error", label=u["error"], pos="", detail=""))
        for f in u.get("failed") or []:
            name = "%s/%s/%s" % (u["name"], f["kind"], f["label"])
            k = [x for x in kn if x[0] == "obligation" and name.replace(" ", "_").startswith(x[1])]
            if k:
                t.known_hit.append(k[0])
                continue
            t.bad.append(dict(unit=u["name"], kind=f["kind"], label=f["label"], pos=f["pos"], detail=f.get("detail", "")))
    if rep.get("error"):
        t.bad.append(dict(unit="-", kind="error", label=rep["error"], pos="", detail=""))
    return t


def prove(prop, tier, scratch, extra, limit):
    rep_path = os.path.join(scratch, "report%d.json" % len(extra))
    e = env(GOVC_OUT=rep_path, GOVC_REPO=REPO, GOVC_SPECS=os.path.join(VERIF, "contracts"), **extra)
    if tier == "thorough":
        e["GOVC_MS"] = "40000"
    p = subprocess.Popen([GOVC, "check", prop], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        try:
            p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            pass
        return json.load(open(rep_path))
    except (OSError, ValueError) as x:
        return dict(ok=False, error="verifier gave no answer: %s" % x, units=[], trusted=[])
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()


def run(prop, tier, seed, scratch, t0):
    build()
    kn = known(prop)
    rep = prove(prop, tier, scratch, {}, 640)
    tot = tally(rep, kn)
    quick = 2000
    budget = 60000 if tier == "thorough" else (25000 if tot.bad else quick)
    fails, stats, hnotes = harness(prop, budget, seed, scratch)
    known_hit = list(tot.known_hit)
    real = []
    for f in fails:
        k = [x for x in kn if x[0] == "case" and x[1] == f.get("case")]
        if k:
            known_hit.append(k[0])
        else:
            real.append(f)
    second = sorted(set(b["unit"] for b in tot.bad if b["unit"] != "-"))
    left = 850 - (time.time() - t0)
    if tot.bad and not real and second and left > 30 and not any(b["unit"] == "-" for b in tot.bad):
        # the recorded hints only narrow the search for loop invariants; before reporting
        # an obligation without a failing input, search again without them
        rep2 = prove(prop, tier, scratch, dict(GOVC_HINTS="0", GOVC_ONLY="\n".join(second)), left)
        if not rep2.get("error"):
            again = {u["name"]: u for u in rep2.get("units") or []}
            rep["units"] = [again.get(u["name"], u) for u in rep["units"]]
            tot = tally(rep, kn)
            known_hit += tot.known_hit
    bad, obls, disch, solver_ms, by_solver = tot.bad, tot.obls, tot.disch, tot.solver_ms, tot.by_solver
    funcs, lemmas, notes, inlined = tot.funcs, tot.lemmas, tot.notes, tot.inlined
    for k in sorted(set(known_hit)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    viol = 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + ".json")
    if os.path.exists(rpath):
        os.remove(rpath)
    if bad or real:
        viol = 1
        json.dump(dict(property=prop, failing_inputs=real[:10], failed_obligations=bad, harness_notes=hnotes,
                       how="failing_inputs: run the named case of /verif/harness/%s in package pkg with this input" % prop),
                  open(rpath, "w"), indent=1)
        for b in bad[:12]:
            print("failed obligation: %s: %s [%s] %s" % (b["unit"], b["kind"], b["label"], b["pos"]))
        for f in real[:5]:
            print("failing input (%s): %s: %s" % (f.get("case"), str(f.get("input"))[:600], str(f.get("detail"))[:600]))
        for n in hnotes:
            print("note:", n[:800])
        print("VIOLATION property=%s replay=%s%s" % (prop, rpath, "" if real else " no-failing-input-found"))
    base = ["z3 5.x / z3 4.8 / cvc5 1.1 (an unsat answer of any one is accepted)",
            "golang.org/x/tools/go/ssa builds the verified program from the working tree",
            "govc: translation of SSA to verification conditions and its library models",
            "int is a mathematical integer (no overflow); float64 is a real number unless a unit's mode says otherwise",
            "termination is not proved; memory: no data races (single-threaded semantics)"]
    cov = dict(obligations=obls, discharged=disch,
               checker_cmd="govc check %s (contracts in /verif/contracts, program from %s)" % (prop, REPO),
               trusted_base=base + (rep.get("trusted") or []),
               functions_under_contract=funcs, lemmas=lemmas, inlined_functions=sorted(inlined),
               back_ends=by_solver, solver_ms=solver_ms, notes=sorted(notes),
               failed_obligations=[b for b in bad][:50],
               known_findings=[k[2] for k in sorted(set(known_hit))],
               replay_search=dict(budget_ms=budget, runs=stats, notes=hnotes, failing=len(real)))
    samples = []
    for u in rep.get("units") or []:
        for s in (u.get("sample") or [])[:3]:
            samples.append("%s: %s %s %s by %s in %d ms" % (u["name"], s["kind"], s["label"], s["pos"], s.get("solver"), s["ms"]))
    cov["samples"] = samples[:60]
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", coverage=cov,
              assumptions=base + (rep.get("trusted") or []), wall_s=round(time.time() - t0, 2), violations=viol)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d units, %.1f s" % (prop, obls, disch, len(rep.get("units") or []), time.time() - t0))
    return 1 if viol else 0


if __name__ == "__main__":
    main()
