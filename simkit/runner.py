"""Search, isolation, minimisation, replay, evidence."""
import gc
import hashlib
import json
import os
import pickle
import random
import resource
import shutil
import struct
import subprocess
import sys
import tempfile
import time

from . import core
from .decide import Decider

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
NWORK = int(os.environ.get("SIMKIT_WORKERS", "8"))
MEM = 3 << 30


def seed_for(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return struct.unpack("<Q", h)[0] >> 1


# ---------------------------------------------------------------------------
# one isolated run = one forked child
def isolated(scn, plan, mk_decider, trace=False, scratch_root=None):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            gc.disable()
            resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
            sdir = None
            if scn.needs_scratch:
                sdir = tempfile.mkdtemp(prefix="simkit-", dir=scratch_root)
                os.chdir(sdir)
            try:
                res = core.execute(scn, plan, mk_decider(), trace=trace,
                                   cpu_limit=scn.cpu_limit, scratch=sdir)
            finally:
                if sdir:
                    os.chdir("/")
                    shutil.rmtree(sdir, ignore_errors=True)
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException as e:      # harness failure: must be visible
            try:
                import traceback
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(
                        {"harness_error": traceback.format_exc()}))
                code = 0
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        return {"status": "crash", "violations": [
            ["crash", "the simulated process died, wait status %d" % st]],
            "fp": "", "choices": 0, "steps": 0, "simtime": 0, "faults": {},
            "covs": [], "states": [], "log": [], "nontrivial": True,
            "trace": None, "msgs": None, "histlen": 0, "histhash": "",
            "hist": None, "out": None}
    return pickle.loads(data)


core.Scenario.needs_scratch = False


def make_case(scns, prop, base_seed, i, tier):
    seed = seed_for(base_seed, prop, i)
    rng = random.Random(seed)
    scn = rng.choices(scns, [s.weight for s in scns])[0]
    plan = scn().gen(rng, tier)
    mode, params = core.gen_mode(rng, scn)
    plan = json.loads(json.dumps(plan))
    return seed, scn, plan, mode, params


def run_case(case, scratch_root=None):
    seed, scn, plan, mode, params = case
    return isolated(scn, plan, lambda: Decider(seed, None, mode, params),
                    scratch_root=scratch_root)


def worker(scns, prop, base_seed, tier, idxs, deadline, wfd, scratch_root,
           known):
    with os.fdopen(wfd, "wb") as f:
        for i in idxs:
            if time.monotonic() > deadline:
                break
            case = make_case(scns, prop, base_seed, i, tier)
            res = run_case(case, scratch_root)
            bad = bool(res.get("violations")) or "harness_error" in res
            rec = {k: res.get(k) for k in (
                "status", "violations", "fp", "choices", "steps", "simtime",
                "faults", "covs", "states", "nontrivial", "histhash",
                "harness_error")}
            if bad:
                rec["log"] = res.get("log")
            rec["i"] = i
            rec["scn"] = case[1].name
            rec["mode"] = case[3]
            b = pickle.dumps(rec)
            f.write(struct.pack("<I", len(b)))
            f.write(b)
            f.flush()
            if bad:
                break


def search(scns, prop, base_seed, tier, nruns, budget_s, known=(), start=0):
    """Returns (records, first_violation_index or None)."""
    sys.stdout.flush()
    t0 = time.monotonic()
    deadline = t0 + budget_s
    scratch_root = tempfile.mkdtemp(prefix="simkit-root-")
    gc.collect()
    gc.freeze()
    kids = []
    for wk in range(NWORK):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for (_, rr) in kids:
                    try:
                        os.close(rr)
                    except OSError:
                        pass
                worker(scns, prop, base_seed, tier,
                       range(start + wk, start + nruns, NWORK), deadline, w,
                       scratch_root, known)
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    recs = []
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for pid, r in kids:
        sel.register(r, selectors.EVENT_READ)
        bufs[r] = b""
    while bufs:
        for key, _ in sel.select():
            fd = key.fd
            d = os.read(fd, 1 << 20)
            if not d:
                sel.unregister(fd)
                os.close(fd)
                del bufs[fd]
                continue
            b = bufs[fd] + d
            while len(b) >= 4:
                n = struct.unpack("<I", b[:4])[0]
                if len(b) < 4 + n:
                    break
                recs.append(pickle.loads(b[4:4 + n]))
                b = b[4 + n:]
            bufs[fd] = b
    died = 0
    for pid, _ in kids:
        _, st = os.waitpid(pid, 0)
        if st:
            died += 1
    shutil.rmtree(scratch_root, ignore_errors=True)
    recs.sort(key=lambda r: r["i"])
    return recs, died, time.monotonic() - t0


# ---------------------------------------------------------------------------
# minimisation
def _paths(plan, path=()):
    """All lists inside the plan, outermost first."""
    out = []
    if isinstance(plan, list):
        out.append(path)
        for i, v in enumerate(plan):
            out += _paths(v, path + (i,))
    elif isinstance(plan, dict):
        for k in sorted(plan):
            out += _paths(plan[k], path + (k,))
    return out


def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def _with(plan, path, val):
    plan = json.loads(json.dumps(plan))
    if not path:
        return val
    o = plan
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = val
    return plan


class Minimizer(object):
    def __init__(self, scn, plan, log, kind, budget_s):
        self.scn = scn
        self.kind = kind
        self.place = None       # where an exception came from: kept as well
        self.plan = plan
        self.log = log
        self.deadline = time.monotonic() + budget_s
        self.tries = 0
        self.root = tempfile.mkdtemp(prefix="simkit-min-")

    def fails(self, plan, log):
        if time.monotonic() > self.deadline:
            return None
        self.tries += 1
        try:
            if not self.scn().valid(plan):
                return None
        except Exception:
            return None
        res = isolated(self.scn, plan, lambda: Decider(0, list(log)),
                       scratch_root=self.root)
        if res.get("harness_error"):
            return None
        v = res.get("violations")
        if v and v[0][0] == self.kind:
            if self.kind == "exception":
                m = v[0][1]
                place = (m.split(":")[0], m[m.rfind("["):])
                if self.place is None:
                    self.place = place
                if place != self.place:
                    return None
            return res
        return None

    def shrink_log(self):
        # decisions -> stock order, in blocks, then truncate trailing zeros
        log = list(self.log)
        n = len(log)
        size = n
        while size >= 1:
            i = 0
            while i < len(log):
                if time.monotonic() > self.deadline:
                    break
                if any(log[i:i + size]):
                    cand = log[:i] + [0] * len(log[i:i + size]) + \
                        log[i + size:]
                    if self.fails(self.plan, cand):
                        log = cand
                i += size
            if time.monotonic() > self.deadline:
                break
            size //= 2
        while log and log[-1] == 0:
            log.pop()
        if self.fails(self.plan, log):
            self.log = log

    def shrink_plan(self):
        again = True
        rounds = 0
        while again and time.monotonic() < self.deadline and rounds < 4:
            again = False
            rounds += 1
            for path in _paths(self.plan):
                try:
                    cur = _get(self.plan, path)
                except (KeyError, IndexError, TypeError):
                    continue
                if not isinstance(cur, list) or not cur:
                    continue
                size = max(1, len(cur) // 2)
                while size >= 1:
                    i = 0
                    while i < len(cur):
                        cand = cur[:i] + cur[i + size:]
                        p2 = _with(self.plan, path, cand)
                        ok = self.fails(p2, self.log) or \
                            self.fails(p2, [])
                        if ok:
                            self.plan = p2
                            self.log = ok["log"]
                            cur = cand
                            again = True
                        else:
                            i += size
                        if time.monotonic() > self.deadline:
                            return
                    size //= 2

    def run(self):
        try:
            self.fails(self.plan, self.log)     # fixes self.place
            if self.fails(self.plan, []):
                self.log = []
            self.shrink_plan()
            self.shrink_log()
        finally:
            shutil.rmtree(self.root, ignore_errors=True)
        return self.plan, self.log


core.Scenario.valid = lambda self, plan: True


# ---------------------------------------------------------------------------
def write_replay(prop, scn, plan, log, kind, msg, seed, idx, mode, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s-%d.json" % (prop, seed, idx))
    with open(path, "w") as f:
        json.dump({"property": prop, "scenario": scn.name, "plan": plan,
                   "decisions": log, "violation": kind, "message": msg,
                   "verif_seed": seed, "run_index": idx, "policy": mode,
                   **extra}, f, indent=1)
    return path


def replay_obj(obj, scns, trace=False):
    scn = next(s for s in scns if s.name == obj["scenario"])
    root = tempfile.mkdtemp(prefix="simkit-rep-")
    try:
        return isolated(scn, obj["plan"],
                        lambda: Decider(0, list(obj["decisions"])),
                        trace=trace, scratch_root=root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
