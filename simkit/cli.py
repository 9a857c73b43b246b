import importlib
import json
import os
import subprocess
import sys
import time

from . import core, runner
from .decide import Decider

VERIF = runner.VERIF


def registry():
    from scenarios import registry as r
    return r


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["entries"]


def known_match(entries, prop, scn, kind, msg):
    """A violation is a listed finding only if property, scenario, kind and
    the exact text fragment that identifies the failing history agree."""
    for e in entries:
        if e.get("status") == "known" and e["property"] == prop and \
                e["scenario"] == scn and e["kind"] == kind and \
                e["match"] in msg:
            return e
    return None


def quiet_boot():
    """Boot the code under test with its banner captured."""
    import io
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        core.boot()
        r = registry()
        r.load()
    finally:
        sys.stdout = old
    return r


def check(prop, tier, runs=None, seed=None, keep_going=False):
    t0 = time.monotonic()
    base = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    evp = os.path.join(VERIF, "evidence", "%s.json" % prop)
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    try:
        reg = quiet_boot()
    except BaseException as e:
        # the code under test does not even import: that is a violation of
        # everything it promises, with the failure itself as the replay
        import traceback
        os.makedirs(runner.REPLAYS, exist_ok=True)
        path = os.path.join(runner.REPLAYS, "%s-boot.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "scenario": "boot", "violation":
                       "boot", "message": traceback.format_exc()}, f)
        print("the code under test cannot be loaded: %r" % (e,))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    ent = reg.PROPS[prop]
    scns = ent["scenarios"]
    n = runs or ent["runs"][tier]
    budget = ent.get("budget", {"quick": 240, "thorough": 3000})[tier]
    known = load_known()

    # 1. listed findings: replayed exactly, reported, never an alarm
    rc = 0
    known_hits = []
    for e in known:
        if e["property"] != prop or e.get("status") != "known":
            continue
        with open(os.path.join(VERIF, e["replay"])) as f:
            obj = json.load(f)
        res = runner.replay_obj(obj, scns + ent.get("known_scenarios", []))
        v = res.get("violations") or []
        if v and v[0][0] == e["kind"] and e["match"] in v[0][1]:
            known_hits.append(e["what"])
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
        elif v:
            path = os.path.join(VERIF, e["replay"])
            print("replay of a listed finding fails differently: %s: %s"
                  % tuple(v[0]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1

    # 2. seeded search
    recs, died, wall = runner.search(scns, prop, base, tier, n, budget)
    herr = [r for r in recs if r.get("harness_error")]
    viol = [r for r in recs if r["violations"] and not r.get("harness_error")]
    real = []
    for r in viol:
        k, m = r["violations"][0]
        e = known_match(known, prop, r["scn"], k, m)
        if e is None:
            real.append(r)
    replay_path = None
    if herr:
        sys.stderr.write(herr[0]["harness_error"])
    if died:
        sys.stderr.write("%d search workers died\n" % died)
    if real:
        r = real[0]
        rc = 1
        case = runner.make_case(scns, prop, base, r["i"], tier)
        _, scn, plan, mode, params = case
        kind, msg = r["violations"][0]
        print("violation found: run %d scenario %s policy %s: %s: %s"
              % (r["i"], scn.name, mode, kind, msg[:600]))
        mb = 25 if tier == "quick" else 120
        mz = runner.Minimizer(scn, plan, r["log"] or [], kind, mb)
        p2, log2 = mz.run()
        obj = {"scenario": scn.name, "plan": p2, "decisions": log2}
        res = runner.replay_obj(obj, scns)
        v = res.get("violations") or []
        if v:
            kind, msg = v[0]
        else:                               # fall back to the raw run
            p2, log2 = plan, r["log"]
        replay_path = runner.write_replay(
            prop, scn, p2, log2, kind, msg, base, r["i"], mode,
            {"histhash": res.get("histhash"),
             "minimise_tries": mz.tries,
             "original_decisions": len(r["log"] or [])})
        # reproduce in a fresh process
        pr = subprocess.run(
            [sys.executable, "-B", os.path.join(VERIF, "run.py"), "replay",
             replay_path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            env=dict(os.environ))
        ok = pr.returncode == 1
        print("replay in a fresh process: %s" % (
            "reproduced" if ok else "NOT reproduced"))
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))

    # 3. evidence
    ev = [r for r in recs if not r.get("harness_error")]
    fps = set(r["fp"] for r in ev)
    nontriv = [r for r in ev if r["nontrivial"] and r["status"] != "skip"]
    ntfps = set(r["fp"] + r["histhash"] for r in nontriv)
    states = set()
    faults = {}
    covs = {}
    status = {}
    per = {}
    modes = {}
    for r in ev:
        states.update(r["states"])
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for c in r["covs"]:
            covs[c] = covs.get(c, 0) + 1
        status[r["status"]] = status.get(r["status"], 0) + 1
        per[r["scn"]] = per.get(r["scn"], 0) + 1
        modes[r["mode"]] = modes.get(r["mode"], 0) + 1
    samples = []
    for r in (nontriv or ev)[:2]:
        c = runner.make_case(scns, prop, base, r["i"], tier)
        samples.append({"run": r["i"], "scenario": r["scn"],
                        "policy": r["mode"], "seed": c[0],
                        "plan": c[2], "steps": r["steps"],
                        "choices": r["choices"], "interleaving": r["fp"]})
    comps = {"real": [], "stub": []}
    for s in scns:
        for k in comps:
            for x in s.components[k]:
                if x not in comps[k]:
                    comps[k].append(x)
    wall_all = time.monotonic() - t0
    out = {
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": len(ev),
            "distinct_nontrivial": len(ntfps),
            "rule": "One evaluation is one simulated execution: a plan "
                    "(topology, operations, delays, faults) drawn from the "
                    "seed, run under the seeded scheduler.  Non-trivial: the "
                    "scenario marked that the behaviour under test was really "
                    "exercised (%s).  Distinct: by the sequence of (task, "
                    "waking trigger) steps plus the recorded history."
                    % ent.get("nontrivial", "traffic in both directions"),
            "samples": samples,
            "runs_per_hour": int(len(ev) / max(wall, 1e-6) * 3600),
            "seeds_per_hour": int(len(ev) / max(wall, 1e-6) * 3600),
            "simulated_time_ns": sum(r["simtime"] for r in ev) // 1000,
            "task_steps": sum(r["steps"] for r in ev),
            "scheduling_and_fault_choices": sum(r["choices"] for r in ev),
            "faults_injected": faults,
            "distinct_interleavings": len(fps),
            "interleaving_measure": "hash of the sequence of (task, waking "
                                    "trigger kind) scheduling steps",
            "distinct_model_states": len(states),
            "behaviours_reached": covs,
            "run_outcomes": status,
            "runs_per_scenario": per,
            "runs_per_policy": modes,
            "components_real": comps["real"],
            "components_stub": comps["stub"],
            "known_findings_reproduced": known_hits,
        },
        "assumptions": ent.get("assumptions", []) + [
            "cocotb's documented contract: any runnable task may run next; "
            "tasks are only preempted at await",
            "seeded search, not exhaustive"],
        "wall_s": round(wall_all, 2),
        "violations": len(real),
    }
    with open(evp, "w") as f:
        json.dump(out, f, indent=1)
    print("%s %s: %d runs, %d distinct non-trivial, %d violations, %.1fs "
          "(%d runs/h) outcomes %s faults %s"
          % (prop, tier, len(ev), len(ntfps), len(real), wall_all,
             out["coverage"]["runs_per_hour"], status, faults))
    if herr or died:
        return 3 if rc == 0 else rc
    if rc == 0 and len(ev) < min(n, 20):
        sys.stderr.write("too few runs finished\n")
        return 3
    return rc


def find_scn(reg, prop, name):
    ent = reg.PROPS[prop]
    for s in ent["scenarios"] + ent.get("known_scenarios", []):
        if s.name == name:
            return s
    raise KeyError(name)


def replay(path, verbose=False):
    with open(path) as f:
        obj = json.load(f)
    try:
        reg = quiet_boot()
    except BaseException as e:
        print("boot: %r" % (e,))
        print("VIOLATION property=%s replay=%s" % (obj["property"], path))
        return 1
    if obj["scenario"] == "boot":
        print("the code under test loads")
        return 0
    scn = find_scn(reg, obj["property"], obj["scenario"])
    res = runner.replay_obj(obj, [scn], trace=verbose)
    if verbose:
        for t in (res.get("trace") or [])[-400:]:
            print("  step", t)
        for h in res.get("hist") or []:
            print("  hist", h)
        for m in res.get("msgs") or []:
            print("  msg", m[:200])
        print("  out", res.get("out"))
    if res.get("harness_error"):
        print(res["harness_error"])
        return 3
    v = res.get("violations") or []
    if v:
        print("%s: %s" % tuple(v[0]))
        same = v[0][0] == obj.get("violation")
        print("same violation as recorded: %s; same history: %s"
              % (same, res.get("histhash") == obj.get("histhash")))
        print("VIOLATION property=%s replay=%s" % (obj["property"], path))
        return 1
    print("no violation (status %s)" % res.get("status"))
    return 0


def det(prop, n):
    import hashlib
    reg = quiet_boot()
    scns = reg.PROPS[prop]["scenarios"]
    recs, died, wall = runner.search(scns, prop, 1, "quick", n, 600)
    h = hashlib.blake2b(digest_size=8)
    for r in recs:
        if r.get("harness_error"):
            print(r["harness_error"])
        h.update(repr((r["i"], r["fp"], r["histhash"], r["steps"],
                       r["simtime"], r["status"], r["states"])).encode())
    print(prop, len(recs), h.hexdigest(), "died", died)
    return 0


def main(argv):
    if not argv:
        print("usage: run.py check ID | replay FILE | det ID [n] | list")
        return 2
    cmd = argv[0]
    if cmd == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        runs = None
        seed = None
        a = argv[2:]
        while a:
            if a[0] == "--tier":
                tier = a[1]
            elif a[0] == "--runs":
                runs = int(a[1])
            elif a[0] == "--seed":
                seed = int(a[1])
            a = a[2:]
        return check(argv[1], tier, runs, seed)
    if cmd == "setup":
        reg = quiet_boot()
        print("%d properties; kernel, scheduler and uvm load" % len(reg.PROPS))
        return 0
    if cmd == "replay":
        return replay(argv[1], "-v" in argv[2:])
    if cmd == "det":
        return det(argv[1], int(argv[2]) if len(argv) > 2 else 80)
    if cmd == "list":
        reg = quiet_boot()
        for k in sorted(reg.PROPS):
            print(k, [s.name for s in reg.PROPS[k]["scenarios"]])
        return 0
    return 2
