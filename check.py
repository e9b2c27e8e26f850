#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property on the current tree of /repo:

 1. proof: builds the verifier (tool/), which type-checks the whole of /repo
    together with the contracts in spec/ (an overlay; /repo is not written to),
    generates the obligations of every contract and lemma tagged with the
    property from the current source, and has z3/cvc5 discharge them;
 2. bounded stand-in and replay: builds the harness of the property and runs it
    against the real code.  It covers what is not under contract (labelled
    bounded in the evidence) and looks for a failing input when a proof fails.

Exit 0: held. Exit 1 with a VIOLATION line: broken.
"""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T0 = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def toolenv(go="/opt/veriftools/go1.24.13/bin"):
    env = {k: v for k, v in os.environ.items() if not k.startswith("GO") and k not in ("CGO_ENABLED",)}
    env["PATH"] = go + ":" + env.get("PATH", "/usr/bin:/bin")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", CGO_ENABLED="0")
    env.setdefault("HOME", "/root")
    if "GOCACHE" in os.environ:
        env["GOCACHE"] = os.environ["GOCACHE"]
    return env


def run(cmd, timeout, **kw):
    """run with a time limit that also ends the children; returns (code or None, output)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True,
                         errors="replace", **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


def find_go():
    for d in sorted(glob.glob("/opt/veriftools/go1.2[67]*/bin"), reverse=True):
        if os.path.exists(d + "/go"):
            return d
    return os.path.dirname(shutil.which("go") or "/usr/local/go/bin/go")


def build_tool(work):
    """the verifier, from the committed sources"""
    out = os.path.join(work, "govc")
    env = toolenv(find_go())
    env["GOFLAGS"] = "-mod=vendor"
    for attempt in range(2):
        code, txt = run(["go", "build", "-o", out, "."], 300, cwd=os.path.join(VERIF, "tool"), env=env)
        if code == 0:
            return out
    raise RuntimeError("the verifier does not build: " + txt[-2000:])


class Bounded:
    """the harness of one property"""

    def __init__(self, prop, work, tier, seed):
        self.prop, self.work, self.tier, self.seed = prop, work, tier, seed
        self.note = ""
        self.evals = self.distinct = 0
        self.samples, self.fails, self.tests = [], [], []
        self.sec = 0
        self.exe, self.rounds = None, 0

    def run(self, govc, budget, workers):
        t = time.time()
        try:
            if self.rounds == 0:
                self._build(govc)
            self.rounds += 1
            if self.exe:
                self._run(budget, workers)
        except Exception as e:  # the harness is an aid: what it cannot do is noted
            self.note = "the bounded stand-in could not be run: %s" % e
        self.sec += time.time() - t

    def _build(self, govc):
        pkg = "vf" + self.prop.lower()
        if not os.path.isdir(os.path.join(VERIF, "harness", pkg)):
            self.note = "no bounded stand-in"
            return
        dic = os.path.join(self.work, "dict")
        os.makedirs(dic)
        run([govc, "-repo", REPO, "-harvest", dic, "-base", os.path.join(VERIF, "harness", "base_literals.txt")], 60)
        rep = {}
        for d, _, fs in os.walk(os.path.join(VERIF, "harness")):
            for f in fs:
                if f.endswith(".go"):
                    rel = os.path.relpath(os.path.join(d, f), os.path.join(VERIF, "harness"))
                    rep[os.path.join(REPO, "internal", rel)] = os.path.join(d, f)
        ov = os.path.join(self.work, "overlay.json")
        with open(ov, "w") as fh:
            json.dump({"Replace": rep}, fh)
        env = toolenv()
        osv = os.path.join(self.work, "osv-detector")
        code, txt = run(["go", "build", "-o", osv, "."], 300, cwd=REPO, env=env)
        if code != 0:
            self.note = "/repo does not build: " + txt[-1500:]
            return
        exe = os.path.join(self.work, "harness.test")
        code, txt = run(["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", exe, "./internal/" + pkg], 300, cwd=REPO, env=env)
        if code != 0:
            self.note = "the harness does not fit the code any more (bounded part undecided): " + txt[-1500:]
            return
        self.exe, self.osv, self.dic = exe, osv, dic

    def _run(self, budget, workers):
        env, exe = toolenv(), self.exe
        procs = []
        for i in range((self.rounds - 1) * workers, self.rounds * workers):
            d = os.path.join(self.work, "run%d" % i)
            out = os.path.join(self.work, "out%d" % i)
            os.makedirs(d)
            os.makedirs(out)
            e = dict(env)
            e.update(VERIF_SEED=str(self.seed * 64 + i), VERIF_BUDGET_MS=str(int(budget * 1000)), VERIF_OUT=out, VERIF_DICT=self.dic,
                     VERIF_BIN=self.osv, TMPDIR=d, GOMAXPROCS="2", VERIF_TIER=self.tier)
            lf = open(os.path.join(self.work, "log%d" % i), "w")
            procs.append((subprocess.Popen([exe, "-test.timeout", "%ds" % int(budget * 3 + 120)], cwd=d, env=e, stdout=lf,
                                           stderr=subprocess.STDOUT, start_new_session=True), out, lf.name, i))
        end = time.time() + budget * 3 + 130
        for p, out, lf, i in procs:
            try:
                p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                self.note += " worker %d did not end in time;" % i
            if p.returncode not in (0, 1):
                with open(lf, errors="replace") as fh:
                    self.note += " worker %d ended with %s: %s;" % (i, p.returncode, fh.read()[-600:])
            for f in sorted(glob.glob(out + "/stats-*.json")):
                s = json.load(open(f))
                self.evals += s["evaluations"]
                self.distinct += s["distinct"]
                if len(self.samples) < 6:
                    self.samples += (s["samples"] or [])[:2]
                if s["test"] not in self.tests:
                    self.tests.append(s["test"])
            for f in sorted(glob.glob(out + "/fail-*.json")):
                r = json.load(open(f))
                if not any(x["test"] == r["test"] for x in self.fails):
                    self.fails.append(r)


def prove(govc, prop, work, tier, limit):
    rep = os.path.join(work, "report.json")
    deep = "20" if tier == "quick" else "90"
    cmd = [govc, "-repo", REPO, "-spec", os.path.join(VERIF, "spec"), "-prop", prop, "-out", rep, "-deep", deep, "-limit", str(limit)]
    code, txt = run(cmd, limit + 90)
    if os.path.exists(rep):
        return json.load(open(rep)), txt
    return {"units": [], "load_error": "the verifier gave no report (exit %s): %s" % (code, txt[-1500:])}, txt


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    meta = json.load(open(os.path.join(VERIF, "properties.meta.json"))).get(prop, {})
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join(ev_dir, "replay-%s.json" % prop)
    if os.path.exists(replay):
        os.remove(replay)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        code = decide(prop, tier, seed, meta, ev_dir, replay, work)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", work], stderr=subprocess.DEVNULL)
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, meta, ev_dir, replay, work):
    govc = build_tool(work)
    log("verifier built after %.0f s" % (time.time() - T0))
    ledger = {}
    lp = os.path.join(VERIF, "ledger.json")
    if os.path.exists(lp):
        ledger = json.load(open(lp))

    # the bounded part, looking for a failing input
    b = Bounded(prop, work, tier, seed)
    findings = known_findings(prop)

    def new_fails():
        return [f for f in b.fails if not any(k["match"] and re.search(k["match"], json.dumps(f)) for k in findings)]

    budget = meta.get("budget", 25)
    b.run(govc, budget if tier == "quick" else max(600, budget * 10), meta.get("workers", 8))
    log("bounded part after %.0f s: %d cases, %d failing %s" % (time.time() - T0, b.evals, len(b.fails), b.note))

    # the proof; when an input that fails is at hand it is not waited for as long
    seen = bool(new_fails())
    rep, txt = prove(govc, prop, work, tier, (60 if seen else 270) if tier == "quick" else 3000)
    units = rep.get("units") or []
    failed = [u for u in units if u["status"] == "failed"]
    # a proof that is on record for exactly this code and did not come back in
    # time here is a matter of the machine, not of the code
    slow = [u for u in failed if ledger.get(u["name"]) == u.get("fingerprint")]
    if not seen and any(u["status"] != "proved" and ledger.get(u["name"]) == u.get("fingerprint") for u in units):
        rep2, _ = prove(govc, prop, work, "thorough", 270)
        if rep2.get("units"):
            best = {u["name"]: u for u in rep2["units"]}
            units = [best.get(u["name"], u) if u["status"] != "proved" else u for u in units]
            failed = [u for u in units if u["status"] == "failed"]
            slow = [u for u in failed if ledger.get(u["name"]) == u.get("fingerprint")]
    broken = [u for u in failed if u not in slow]
    undecided = [u for u in units if u["status"] == "undecided"] + slow
    log("proof after %.0f s: %d units, %d failed, %d undecided" % (time.time() - T0, len(units), len(broken), len(undecided)))
    if not seen and (broken or undecided or rep.get("dropped") or rep.get("load_error")):
        b.run(govc, max(budget, 60), meta.get("workers", 8))  # look longer for a failing input
        log("bounded part again after %.0f s: %d cases, %d failing %s" % (time.time() - T0, b.evals, len(b.fails), b.note))

    fails = new_fails()
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    nviol = len(fails) + (1 if broken and not fails else 0)
    obl = sum(len(u["obligations"] or []) + u["invariant_obligations"] for u in units)
    dis = sum(u["discharged"] + u["invariant_obligations"] for u in units)
    by = {}
    for u in units:
        for o in u["obligations"] or []:
            if o["ok"]:
                by[o["by"] or "simplifier"] = by.get(o["by"] or "simplifier", 0) + 1
    assumptions = sorted({a for u in units for a in (u.get("assumptions") or [])} | set(meta.get("assumptions", [])))
    level = meta.get("level", "proof")
    cov = {
        "obligations": obl,
        "discharged": dis,
        "checker_cmd": "govc -prop %s (obligations from /repo's current source; back ends z3-new, cvc5, z3)" % prop,
        "trusted_base": ["tool/ (govc: Go SSA to SMT-LIB, models of library calls)", "z3, cvc5", "golang.org/x/tools/go/ssa"],
        "functions_under_contract": sorted({u["subject"].replace("github.com/g-rath/osv-detector/", "") for u in units if u.get("subject")}),
        "executed_as_part_of_a_caller": sorted({f.replace("github.com/g-rath/osv-detector/", "") for u in units for f in (u.get("functions") or [])
                                                if f != u.get("subject")}),
        "units": [{"name": u["name"], "kind": u["kind"], "status": u["status"], "obligations": len(u["obligations"] or []),
                   "invariant_obligations": u["invariant_obligations"], "discharged": u["discharged"], "reason": u.get("reason", ""),
                   "sec": round(u["sec"], 2)} for u in units],
        "discharged_by": by,
        "solver_seconds": round(rep.get("solver_sec", 0), 1),
        "solver_calls": rep.get("solver_calls", 0),
        "trusted_contracts": rep.get("trusted") or [],
        "contracts_that_no_longer_fit": rep.get("dropped") or {},
        "proof_undecided": [u["name"] + ": " + (u.get("reason") or "solver time") for u in undecided] +
                           ([rep["load_error"]] if rep.get("load_error") else []),
        "bounded": {"label": "bounded stand-in, not counted as proved", "covers": meta.get("bounded", ""), "tests": b.tests,
                    "note": b.note, "seconds": round(b.sec, 1)},
        "evaluations": b.evals,
        "distinct_nontrivial": b.distinct,
        "rule": meta.get("rule", "drawn inputs; non-trivial: the input reaches the behaviour the property is about"),
        "samples": b.samples,
    }
    if level == "other":
        cov["explanation"] = meta.get("explanation", "")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - T0, 1), "violations": nviol}
    with open(os.path.join(ev_dir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)

    if not units and not b.evals:
        # nothing was looked at: never a silent pass
        print("nothing could be checked for %s: %s %s" % (prop, rep.get("load_error", ""), b.note))
        return 2
    if not nviol:
        print("property %s held: %d/%d obligations discharged, %d bounded cases" % (prop, dis, obl, b.evals))
        return 0
    doc = {"property": prop, "failing_inputs": fails, "failed_obligations": [
        {"unit": u["name"], "function": u["subject"], "obligations": [o for o in u["obligations"] if not o["ok"]]} for u in broken],
        "verifier_output": txt[-8000:],
        "how_to_replay": "VERIF_SEED=%d python3 /verif/check.py %s" % (seed, prop)}
    with open(replay, "w") as fh:
        json.dump(doc, fh, indent=1)
    for u in broken:
        for o in u["obligations"]:
            if not o["ok"]:
                print("failed obligation: %s %s %s at %s" % (u["name"], o["kind"], o["name"], o["pos"]))
    for f in fails:
        print("failing input: %s: %s" % (f["test"], f["what"]))
    print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if fails else " no-failing-input-found"))
    return 1


def known_findings(prop):
    """lines 'finding: property=<id> match=<regexp> what=<text>' of known-findings.txt"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) what=(.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "what": m.group(3)})
    return out


if __name__ == "__main__":
    main()
