"""Default sequences of phases, and sequences that are killed: what was
configured last starts with its phase, and killing stops exactly that."""
from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario, root, sev_count
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.seq.uvm_sequence import UVMSequence
from uvm.seq.uvm_sequence_item import UVMSequenceItem
from uvm.comps.uvm_driver import UVMDriver
from uvm.base.uvm_config_db import UVMConfigDb
from uvm.base.uvm_resource_db import UVMResourceDb
from uvm.base.uvm_factory import UVMFactory
from scenarios.phase import RUNTIME
from cocotb.triggers import Timer

PHASES = ["run"] + RUNTIME
LIVE = (UVM_CREATED, UVM_STOPPED, UVM_FINISHED)


class Item(UVMSequenceItem):
    def __init__(self, name="item"):
        super().__init__(name)
        self.seq = None


class Drv(UVMDriver):
    idx = 0

    async def run_phase(self, phase):
        await Cur.scn.drive(self)


class DSeq(UVMSequence):
    spec = 0

    def __init__(self, name="dseq"):
        super().__init__(name)
        self.node = Cur.scn.plan["specs"][self.spec]
        self.boss = None
        self.kids = []
        self.done = self.dead = None
        self.kills = 0
        self.where = None
        if self.node["auto"]:
            self.set_automatic_phase_objection(1)

    async def pre_start(self):
        Cur.scn.started(self)

    async def body(self):
        await Cur.scn.play(self)

    async def post_start(self):
        Cur.scn.finished(self)

    def do_kill(self):
        Cur.scn.doomed(self)


class DSeq0(DSeq):
    spec = 0


class DSeq1(DSeq):
    spec = 1


class DSeq2(DSeq):
    spec = 2


class DSeq3(DSeq):
    spec = 3


TYPES = [DSeq0, DSeq1, DSeq2, DSeq3]
for _t in TYPES:
    uvm_object_utils(_t)


class Tester(UVMComponent):
    """Keeps the phases going and watches them."""

    def phase_started(self, phase):
        Cur.scn.begun(phase)

    def phase_ended(self, phase):
        Cur.scn.ended(phase)


def _task(name):
    async def f(self, phase):
        await Cur.scn.hold(self, phase, name)
    f.__name__ = name + "_phase"
    return f


for _n in PHASES:
    setattr(Tester, _n + "_phase", _task(_n))


class DefSeq(UvmScenario):
    name = "default_sequences"

    # -- plan -------------------------------------------------------------
    def gen(self, rng, tier):
        big = tier != "quick"
        nsqr = rng.randint(1, 3)
        auto = rng.random() < 0.4
        plan = {"nsqr": nsqr, "lat": [[rng.randint(1, 4) for _ in range(
            rng.randint(1, 3))] for _ in range(nsqr)],
            "specs": [], "over": [], "sets": [], "kills": [], "direct": []}
        for i in range(4):
            plan["specs"].append({"auto": 1 if auto else rng.choice([0, 1]),
                                  "ops": self.gen_ops(rng, i)})
        used = rng.sample(PHASES, rng.randint(1, 6 if big else 4))
        plan["holds"] = {}
        for p in PHASES:
            if p in used or (not auto and rng.random() < 0.3) or p == "run":
                h = rng.choice([1, 2, 4, 9, 20])
                plan["holds"][p] = 0 if auto and rng.random() < 0.5 else h
        if not auto:
            for p in PHASES:            # a phase with a sequence lasts a bit
                plan["holds"].setdefault(p, rng.choice([1, 1, 2, 3]))
        for _ in range(rng.randint(1, 8 if big else 5)):
            when = rng.choice(["build"] * 4 + used)
            how = rng.choice(["cfg", "cfg", "cfg", "rsrc"])
            sqr = rng.choice(list(range(nsqr)) * 2 + [-1])
            ph = rng.choice(used * 2 + ["*"])
            kind = rng.choice(["type"] * 4 + ["inst", "inst", "none", "odd"])
            if kind == "inst":
                sqr, ph = rng.randrange(nsqr), rng.choice(used)
            plan["sets"].append([when, how, sqr, ph, kind, rng.randrange(4)])
        for _ in range(rng.choice([0, 0, 1, 2])):
            plan["over"].append([rng.randrange(4), rng.randrange(4),
                                 rng.randint(-1, nsqr - 1)])
        for _ in range(rng.choice([0, 0, 1, 2])):
            plan["direct"].append([rng.randint(0, 12), rng.randrange(nsqr),
                                   rng.randrange(4)])
        for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
            plan["kills"].append([rng.randint(0, 40), rng.randrange(8),
                                  rng.random() < 0.4])
        return plan

    def gen_ops(self, rng, i):
        ops = [["item"] if rng.random() < 0.7 else ["wait", rng.randint(1, 5)]]
        for _ in range(rng.randint(0, 5)):
            k = rng.random()
            if k < 0.55:
                ops.append(["item"])
            elif k < 0.8 or i == 0:
                ops.append(["wait", rng.randint(1, 9)])
            elif k < 0.92:
                ops.append(["sub", rng.randrange(i)])
            else:
                ops.append(["par", [rng.randrange(i) for _ in range(
                    rng.randint(1, 3))]])
        return ops

    def valid(self, plan):
        n = plan["nsqr"]
        auto = all(s["auto"] for s in plan["specs"])
        for i, s in enumerate(plan["specs"]):
            if not s["ops"] or s["ops"][0][0] not in ("item", "wait"):
                return False
            for o in s["ops"]:
                if o[0] == "wait" and o[1] < 1:
                    return False
                if any(x >= i for x in ([o[1]] if o[0] == "sub" else
                                        o[1] if o[0] == "par" else [])):
                    return False
        return (n > 0 and len(plan["specs"]) == 4 and len(plan["lat"]) == n
                and all(l and min(l) > 0 for l in plan["lat"])
                and all(s[2] < n and (s[4] != "inst" or
                                      s[2] >= 0 and s[3] != "*")
                        for s in plan["sets"])
                and all(d[1] < n for d in plan["direct"])
                and all(o[2] < n for o in plan["over"])
                and (auto or all(plan["holds"].get(p, 0) > 0
                                 for p in PHASES)))

    # -- bench ------------------------------------------------------------
    def build(self, test):
        p = self.plan
        root().set_report_verbosity_level(UVM_LOW)
        self.sqr, self.drv = [], []
        Tester("tester", test)
        for i in range(p["nsqr"]):
            ag = UVMComponent("ag%d" % i, test)
            self.sqr.append(UVMSequencer("sqr", ag))
            d = Drv("drv", ag)
            d.idx = i
            self.drv.append(d)
        self.test = test
        self.live = {}              # sequence -> True
        self.all = []
        self.roots = {}             # (sequencer, phase) -> sequence
        self.t0, self.t1, self.want = {}, {}, {}
        self.act = {}
        self.got = {}
        self.racy = False
        self.directs = {}
        self.setlog = []            # (precedence, sqr, phase, kind, what)
        self.busy = {}
        self.typeov, self.instov = {}, []
        f = UVMFactory.get()
        for a, b, s in p["over"]:
            if a == b:
                continue
            if s < 0:
                # (chains and loops belong to another check)
                if a in self.typeov.values() or b in self.typeov:
                    continue
                f.set_type_override_by_type(TYPES[a].type_id.get(),
                                            TYPES[b].type_id.get())
                self.typeov[a] = b
        for a, b, s in p["over"]:
            if s >= 0 and a != b and not self.typeov and not any(
                    x[2] == s for x in self.instov):
                f.set_inst_override_by_type(
                    TYPES[a].type_id.get(), TYPES[b].type_id.get(),
                    self.sqr[s].get_full_name() + ".*")
                self.instov.append((a, b, s))
        for s in p["sets"]:
            if s[0] == "build":
                self.put(s)

    def connect(self, test):
        for s, d in zip(self.sqr, self.drv):
            d.seq_item_port.connect(s.seq_item_export)

    def put(self, s):
        ctx = Cur.ctx
        when, how, q, ph, kind, k = s
        path = "ag%d.sqr" % q if q >= 0 else "*"
        path += ".%s_phase" % ph if ph != "*" else ".*_phase"
        v = None
        if kind == "type":
            v = TYPES[k].type_id.get()
        elif kind == "inst":
            v = TYPES[k]("inst%d" % len(self.setlog))
        elif kind == "odd":
            v = 7
        if how == "cfg":
            UVMConfigDb.set(self.test, path, "default_sequence", v)
        else:
            UVMResourceDb.set("uvm_test_top." + path, "default_sequence", v,
                              self.test)
        prec = 0 if how == "cfg" and when == "build" else 1
        new = (prec, q, ph, kind, k if kind == "type" else v)
        # a configuration setting is looked at before all others, a plain
        # resource after them; the same setting made again replaces the first
        if how == "cfg":
            self.setlog = [x for x in self.setlog if x[5] != path]
            self.setlog.insert(0, new + (path,))
        else:
            self.setlog.append(new + (None,))
        ctx.cov("set_%s_%s" % (kind, how))

    def expected(self, q, ph):
        best = None
        for s in self.setlog:
            if s[1] in (-1, q) and s[2] in ("*", ph):
                if s[3] != "odd" and (best is None or s[0] > best[0]):
                    best = s
        if best is None or best[3] == "none":
            return None
        if best[3] == "inst":
            return best[4]
        k = best[4]
        for a, b, s in self.instov:
            if a == k and s == q:
                return b
        return self.typeov.get(k, k)

    # -- phases -----------------------------------------------------------
    def begun(self, phase):
        n = phase.get_name()
        ctx = Cur.ctx
        if n in PHASES:
            self.t0[n] = ctx.now
            self.roots[n] = {q: self.expected(q, n)
                             for q in range(self.plan["nsqr"])}
            self.busy[n] = []
            ctx.rec("phase", n, ctx.now)

    async def hold(self, t, phase, n):
        ctx = Cur.ctx
        i = PHASES.index(n)
        h = self.plan["holds"].get(n, 0)
        if h:
            phase.raise_objection(t)
        if n == "run":
            ctx.spawn(self.killer())
            for j, d in enumerate(self.plan["direct"]):
                phase.raise_objection(t)
                ctx.spawn(self.direct(phase, t, j, d))
        if h:
            await Timer(300, "PS")
        for s in self.plan["sets"]:
            if s[0] == n and h:
                self.put(s)
        if h:
            await Timer(h * 1000 - 300 + 7 * (i + 1), "PS")
            phase.drop_objection(t)

    def ended(self, phase):
        ctx = Cur.ctx
        n = phase.get_name()
        if n not in PHASES:
            return
        self.t1[n] = ctx.now
        h = self.plan["holds"].get(n, 0)
        want = self.t0[n] + (h * 1000 + 7 * (PHASES.index(n) + 1) if h else 0)
        for s in self.busy[n]:
            if s.node["auto"] and s.boss is None and s not in self.directs:
                ctx.check(s not in self.live, "phase_early",
                          lambda: "%s ended before %s" % (n, self.nm(s)))
                want = max(want, s.done or s.dead)
        if n == "run":
            for s, t in self.directs.items():
                ctx.check(t is not None, "phase_early", "run phase ended "
                          "before a sequence of the test")
                want = max(want, t)
        self.want[n] = want             # (the last two end together)
        if n not in ("run", "post_shutdown"):
            ctx.eq(ctx.now, want, "phase_end", "time %s ended" % n)
        for q, e in self.roots[n].items():
            if e is not None:
                ctx.check(any(s.q == q and s.boss is None and
                              s not in self.directs for s in self.busy[n]),
                          "not_started", "no default sequence ran on %d in %s"
                          % (q, n))
        # what still runs is killed now
        due = [s for s in self.live if s.where == n and
               self.top(s) not in self.directs]
        for s in due:
            if self.act.get(s.q) == ctx.now:
                self.racy = True
        if due:
            ctx.fault("phase_ends_under_sequence")
        ctx.spawn(self.killed(due, ctx.now))

    async def killed(self, due, t):
        ctx = Cur.ctx
        await Timer(50, "PS")
        for s in due:
            if s.done == t:
                continue
            ctx.eq((s.dead, s.get_sequence_state()), (t, UVM_STOPPED),
                   "not_killed", "%s at the end of its phase" % self.nm(s))

    def nm(self, s):
        return "%s(%d) on %d in %s" % (s.get_name(), s.spec, s.q, s.where)

    def top(self, s):
        while s.boss is not None:
            s = s.boss
        return s

    # -- sequences --------------------------------------------------------
    def started(self, s):
        ctx = Cur.ctx
        ctx.nontrivial = True
        s.q = self.sqr.index(s.get_sequencer())
        self.live[s] = True
        self.all.append(s)
        s.dead = s.done = None
        if s.boss is not None:
            s.where = s.boss.where
            self.busy[s.where].append(s)
            return
        if s in self.directs:
            s.where = "run"
            self.busy["run"].append(s)
            return
        ph = s.get_starting_phase()
        n = ph.get_name()
        s.where = n
        ctx.rec("start", s.spec, s.q, n, ctx.now)
        e = self.roots[n].get(s.q)
        ctx.check(e is not None, "unexpected", lambda: "%s was not asked for"
                  % self.nm(s))
        if isinstance(e, DSeq):
            ctx.check(s is e, "wrong_sequence", lambda: "%s instead of %s"
                      % (self.nm(s), e.get_name()))
            ctx.cov("instance")
        else:
            ctx.eq(s.spec, e, "wrong_sequence", self.nm(s))
            if self.typeov or self.instov:
                ctx.cov("override")
        ctx.check(not any(x.q == s.q and x.boss is None and
                          x not in self.directs for x in self.busy[n]),
                  "twice", lambda: "%s started twice" % self.nm(s))
        ctx.eq(ctx.now, self.t0[n], "late", "start of %s" % self.nm(s))
        if s.node["auto"]:
            ctx.eq(ph.get_objection().get_objection_count(s), 1, "objection",
                   "objections of %s" % self.nm(s))
        self.busy[n].append(s)

    def alive(self, s):
        Cur.ctx.check(s in self.live, "undead", lambda: "%s runs on after it "
                      "was killed or had ended" % self.nm(s))

    async def play(self, s):
        ctx = Cur.ctx
        n = 0
        for o in s.node["ops"]:
            self.alive(s)
            if o[0] == "item":
                it = Item("it")
                it.seq = s
                self.act[s.q] = ctx.now
                await s.start_item(it)
                self.alive(s)
                await s.finish_item(it)
                n += 1
                ctx.eq(self.got.get(it), ctx.now, "item_done",
                       "item %d of %s" % (n, self.nm(s)))
            elif o[0] == "wait":
                await Timer(o[1] * 1000 + 17 ** s.q, "PS")
            else:
                ks = [self.child(s, k) for k in (
                    [o[1]] if o[0] == "sub" else o[1])]
                if o[0] == "sub":
                    await self.kid(s, ks[0])
                else:
                    ts = [ctx.spawn(self.kid(s, c)) for c in ks]
                    for t in ts:
                        await t.join()
        self.alive(s)

    def child(self, s, k):
        c = TYPES[k]("kid")
        c.set_automatic_phase_objection(0)
        c.boss = s
        s.kids.append(c)
        return c

    async def kid(self, s, c):
        ctx = Cur.ctx
        c.q = s.q
        c.where = s.where
        await c.start(self.sqr[s.q], s)
        ctx.check(c not in self.live, "start_returned", lambda: "start() of "
                  "%s returned while it ran" % self.nm(c))
        if s not in self.live:
            return
        ctx.eq(ctx.now, c.done or c.dead, "start_returned",
               "start() of %s" % self.nm(c))
        ctx.eq(c.get_sequence_state(), UVM_STOPPED if c.dead is not None
               else UVM_FINISHED, "state", "state of %s" % self.nm(c))

    def finished(self, s):
        self.alive(s)
        del self.live[s]
        s.done = Cur.ctx.now
        Cur.ctx.cov("finished")

    def doomed(self, s):
        ctx = Cur.ctx
        if getattr(s, "q", None) is None:
            s.q, s.where = s.boss.q, s.boss.where
        ctx.check(s in self.live or s.done == ctx.now, "killed_twice",
                  lambda: "%s was killed but does not run" % self.nm(s))
        self.live.pop(s, None)
        s.dead = ctx.now
        ctx.cov("killed")
        ctx.rec("dead", s.spec, s.q, ctx.now)

    async def direct(self, phase, t, j, d):
        ctx = Cur.ctx
        await Timer(d[0] * 1000 + 1, "PS")
        s = TYPES[d[2]]("direct%d" % j)
        s.set_automatic_phase_objection(0)
        s.q = d[1]
        self.directs[s] = None
        await s.start(self.sqr[d[1]])
        ctx.check(s not in self.live, "start_returned",
                  "start() of %s returned while it ran" % s.get_name())
        ctx.eq(ctx.now, s.done or s.dead, "start_returned",
               "start() of a sequence of the test")
        ctx.eq(s.get_sequence_state(), UVM_STOPPED if s.dead is not None
               else UVM_FINISHED, "state", "state of %s" % s.get_name())
        self.directs[s] = ctx.now
        phase.drop_objection(t)

    async def killer(self):
        ctx = Cur.ctx
        last = 0
        t0 = ctx.now
        for t, k, kids in sorted(self.plan["kills"]):
            at = t0 + t * 1000 + 900
            if at > ctx.now:
                await Timer(at - ctx.now, "PS")
            ss = [s for s in self.live if kids or s.boss is None]
            if not ss:
                continue
            s = ss[k % len(ss)]
            if any(self.act.get(q) == ctx.now for q in range(len(self.sqr))):
                continue
            tree = []
            todo = [s]
            while todo:
                x = todo.pop()
                if x in self.live:
                    tree.append(x)
                todo += x.kids
            others = [x for x in self.live if x not in tree]
            ctx.fault("sequence_killed")
            s.kill()
            for x in tree:
                ctx.eq((x.dead, x.get_sequence_state()),
                       (ctx.now, UVM_STOPPED), "not_killed", self.nm(x))
            for x in others:
                ctx.check(x in self.live, "collateral", lambda: "killing %s "
                          "also killed %s" % (self.nm(s), self.nm(x)))
            s.kill()                    # nothing is left to be killed
            if self.top(s) is s and s.node["auto"] and s not in self.directs:
                ctx.cov("killed_objector")

    async def drive(self, drv):
        ctx, port, q = Cur.ctx, drv.seq_item_port, drv.idx
        lat = self.plan["lat"][q]
        n = 0
        while True:
            l = []
            self.act[q] = ctx.now
            await port.get_next_item(l)
            it = l[0]
            self.act[q] = ctx.now
            s = it.seq
            ctx.check(s in self.live or ctx.now in (s.dead, s.done), "undead",
                      lambda: "item of %s after its end" % self.nm(s))
            ctx.eq(s.q, q, "misrouted", "item of %s" % self.nm(s))
            n += 1
            await Timer(lat[n % len(lat)] * 1000 + 17 ** q, "PS")
            self.got[it] = ctx.now
            self.act[q] = ctx.now
            port.item_done()

    def on_deadlock(self, ctx, plan):
        if not self.racy:
            super().on_deadlock(ctx, plan)

    def after(self, ctx, plan):
        ctx.eq(sorted(self.t1), sorted(PHASES), "phases", "phases that ended")
        want = max(self.want["run"], self.want["post_shutdown"])
        ctx.eq((self.t1["run"], self.t1["post_shutdown"]), (want, want),
               "phase_end", "time the last phases ended")
        ctx.check(not self.live, "undead", lambda: "still running: %r"
                  % [self.nm(s) for s in self.live])
        ctx.eq(sev_count(UVM_ERROR) + sev_count(UVM_WARNING), 0, "reports",
               "error and warning messages")
