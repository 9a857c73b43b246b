"""Whole-test phasing: order, objections, ready_to_end, domains, custom
phases; random component trees, random objection scripts."""
from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario, root
from scenarios.objection import ObjModel, gen_tree
from uvm.base.uvm_domain import UVMDomain
from uvm.base.uvm_phase import UVMPhase
from uvm.base.uvm_task_phase import UVMTaskPhase
from uvm.base.uvm_topdown_phase import UVMTopdownPhase
from uvm.base.uvm_bottomup_phase import UVMBottomupPhase
import uvm.base.uvm_common_phases as CP
import uvm.base.uvm_runtime_phases as RP
from cocotb.triggers import Timer

COMMON = ["build", "connect", "end_of_elaboration", "start_of_simulation",
          "run", "extract", "check", "report", "final"]
RUNTIME = ["pre_reset", "reset", "post_reset", "pre_configure", "configure",
           "post_configure", "pre_main", "main", "post_main", "pre_shutdown",
           "shutdown", "post_shutdown"]
FUNC = [p for p in COMMON if p != "run"]
TOPDOWN = ("build",)
CLS = {"build": CP.UVMBuildPhase, "connect": CP.UVMConnectPhase,
       "end_of_elaboration": CP.UVMEndOfElaborationPhase,
       "start_of_simulation": CP.UVMStartofSimulationPhase,
       "run": CP.UVMRunPhase, "extract": CP.UVMExtractPhase,
       "check": CP.UVMCheckPhase, "report": CP.UVMReportPhase,
       "final": CP.UVMFinalPhase}
for _n in RUNTIME:
    CLS[_n] = getattr(RP, "UVM%sPhase" % "".join(
        x.capitalize() for x in _n.split("_")))


class PhMixin(object):
    """Forwards every phase hook of a component to the scenario."""
    idx = None

    def phase_started(self, phase):
        Cur.scn.on_started(self, phase)

    def phase_ready_to_end(self, phase):
        Cur.scn.on_rte(self, phase)

    def phase_ended(self, phase):
        Cur.scn.on_ended(self, phase)


def _func(name):
    def f(self, phase):
        Cur.scn.on_func(self, phase, name)
    f.__name__ = name + "_phase"
    return f


def _task(name):
    async def f(self, phase):
        await Cur.scn.on_task(self, phase, name)
    f.__name__ = name + "_phase"
    return f


for _n in FUNC:
    setattr(PhMixin, _n + "_phase", _func(_n))
for _n in ["run"] + RUNTIME:
    setattr(PhMixin, _n + "_phase", _task(_n))


class PhComp(PhMixin, UVMComponent):
    pass


class PhTest(PhMixin, UVMTest):
    def __init__(self, name="PhTest", parent=None):
        super().__init__(name, parent)
        self.idx = -1
        Cur.scn.comps[-1] = self


uvm_component_utils(PhTest)


class CustomTask(UVMTaskPhase):
    async def exec_task(self, comp, phase):
        if isinstance(comp, PhMixin):
            await Cur.scn.on_task(comp, phase, self.get_name())


class CustomTd(UVMTopdownPhase):
    def exec_func(self, comp, phase):
        if isinstance(comp, PhMixin):
            Cur.scn.on_func(comp, phase, self.get_name())


class CustomBu(UVMBottomupPhase):
    def exec_func(self, comp, phase):
        if isinstance(comp, PhMixin):
            Cur.scn.on_func(comp, phase, self.get_name())


class Graph(object):
    """Reference phase graph: what must be over before what may begin."""

    def __init__(self):
        self.pred = {}
        self.succ = {}
        self.kind = {}

    def node(self, n, kind):
        self.pred[n] = set()
        self.succ[n] = set()
        self.kind[n] = kind

    def edge(self, a, b):
        self.succ[a].add(b)
        self.pred[b].add(a)

    def cut(self, a, b):
        self.succ[a].discard(b)
        self.pred[b].discard(a)

    def chain(self, names, kind):
        last = None
        for n in names:
            self.node(n, kind(n))
            if last is not None:
                self.edge(last, n)
            last = n

    def with_(self, b, e, x):
        for p in self.pred[x]:
            self.edge(p, b)
        for s in self.succ[x]:
            self.edge(e, s)

    def before(self, b, e, x):
        for p in list(self.pred[x]):
            self.cut(p, x)
            self.edge(p, b)
        self.edge(e, x)

    def after(self, b, e, x):
        for s in list(self.succ[x]):
            self.cut(x, s)
            self.edge(e, s)
        self.edge(x, b)

    def between(self, n, a, b):
        self.edge(a, n)
        self.edge(n, b)
        self.cut(a, b)

    def real_adj(self, n, m):
        """Adjacent nodes, looking through the virtual ones."""
        out = set()
        todo = list(m[n])
        seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if self.kind[x] == "virtual":
                todo += list(m[x])
            else:
                out.add(x)
        return out

    def siblings(self, n):
        out = set()
        for s in self.real_adj(n, self.succ):
            out |= self.real_adj(s, self.pred)
        out.discard(n)
        return out


class PhaseScenario(UvmScenario):
    name = "phase"
    runtime = False
    customs = False
    max_steps = 200000

    # -- plan ------------------------------------------------------------
    def gen(self, rng, tier):
        n = rng.randint(0, 5)
        parents = gen_tree(rng, n)
        names = ["run"]
        if self.runtime:
            names += rng.sample(RUNTIME, rng.randint(1, 4))
        customs = []
        if self.customs:
            for c in range(rng.randint(1, 2)):
                sched = rng.choice(["common", "common", "uvm"])
                of = rng.choice(COMMON if sched == "common" else RUNTIME)
                rel = rng.choice(["after", "before", "with"])
                kind = rng.choice(["task", "task", "td", "bu"])
                if sched == "common":
                    if of in ("build", "connect") and rel == "before":
                        rel = "after"
                    if of == "final" and rel != "before":
                        rel = "before"
                    if of == "build" and rel == "with":
                        rel = "after"
                    # time may only pass once run has begun
                    if kind == "task" and not (
                            of in ("extract", "check", "report", "final") or
                            of == "run" and rel != "before"):
                        of, rel = "run", rng.choice(["with", "after"])
                cu = {"name": "cust%d" % c, "sched": sched,
                      "of": of, "rel": rel, "kind": kind}
                if rng.random() < 0.25:
                    # after one phase and before another, later one
                    names_ = COMMON if sched == "common" else RUNTIME
                    a = rng.randrange(1, len(names_) - 1)
                    b = rng.randrange(a + 1, len(names_))
                    if sched == "common" and kind == "task":
                        # time may pass only beside or after the run phase
                        b = rng.randrange(max(a + 1, COMMON.index("extract")),
                                          len(names_))
                    cu.update(of=names_[a], rel="between", to=names_[b])
                customs.append(cu)
                if kind == "task":
                    names.append("cust%d" % c)
        scripts = []
        for i in range(-1, n):
            for ph in names:
                if rng.random() < (0.6 if ph == "run" else 0.5):
                    scripts.append([i, ph, self.gen_ops(rng, tier)])
        rte = []
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            rte.append([rng.randint(-1, n - 1), rng.choice(names),
                        [rng.choice([0, -1, -2, 1, 2, 3])
                         for _ in range(rng.randint(1, 3))]])
        drain = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            drain.append([rng.choice(["top"] + list(range(-1, n))),
                          rng.choice(names), rng.choice([1, 2])])
        walk = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            walk.append([rng.randint(-1, n - 1), rng.choice(FUNC)])
        waits = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            waits.append([rng.choice(names + ["build", "extract", "final"]),
                          rng.choice(["STARTED", "EXECUTING", "READY_TO_END",
                                      "ENDED", "DONE"]),
                          rng.choice(["GTE", "GTE", "EQ", "GT"]),
                          rng.choice([0, 0, 1, 3, 8])])
        dom = None
        if self.runtime and rng.random() < 0.35:
            dom = sorted(rng.sample(range(-1, n), rng.randint(1, n + 1)))
            if rng.random() < 0.4:
                # a whole subtree, moved once it is there
                dom = [rng.randrange(-1, n)]
                for i in range(dom[0] + 1, n):
                    p = parents[i] if parents[i] < i else -1
                    if p in dom:
                        dom.append(i)
                dom = {"root": dom[0], "at": rng.choice(["top", "self"])}
        kills = []
        return {"parents": parents, "scripts": scripts, "rte": rte,
                "drain": drain, "walk": walk, "customs": customs,
                "waits": waits, "dom": dom, "kills": kills}

    def gen_ops(self, rng, tier):
        ops = []
        held = 0
        for _ in range(rng.randint(1, 4 if tier == "quick" else 12)):
            d = rng.choice([0, 0, -1, -2, -3, 1, 1, 2, 3])
            if held and rng.random() < 0.5:
                k = rng.choice([1, held])
                ops.append([d, "drop", k])
                held -= k
            else:
                k = rng.choice([1, 1, 2])
                ops.append([d, "raise", k])
                held += k
        # most tasks object right away, some only later (too late, maybe)
        if rng.random() < 0.8:
            ops[0][0] = 0
        ops.append([rng.choice([0, -1, -2, 1, 2, 5]), "dropall", 0])
        if rng.random() < 0.3:
            ops.append([rng.choice([1, 4]), "drop", 0])     # outlives it
        return ops

    # -- bench -----------------------------------------------------------
    def key(self, phase):
        dom = phase.get_domain_name()
        return (dom + "." if dom not in ("common",) else "") + \
            phase.get_name()

    def tick(self):
        return Cur.ctx.now

    def build_graph(self, ctx, plan):
        g = self.g = Graph()
        g.chain(COMMON, lambda n: "task" if n == "run" else "func")
        self.domains = {"common": UVMDomain.get_common_domain(),
                        "uvm": UVMDomain.get_uvm_domain()}
        self.graph_domain("uvm")
        self.sched = UVMDomain.get_uvm_schedule()
        self.members = {}
        for c in plan["customs"]:
            cls = {"task": CustomTask, "td": CustomTd,
                   "bu": CustomBu}[c["kind"]]
            imp = cls(c["name"])
            where = self.domains["common"] if c["sched"] == "common" \
                else self.sched
            other = CLS[c["of"]].get()
            if c["rel"] == "between":
                where.add(imp, None, other, CLS[c["to"]].get())
            else:
                where.add(imp, **{c["rel"] + "_phase": other})
            k = c["name"] if c["sched"] == "common" else "uvm." + c["name"]
            x = c["of"] if c["sched"] == "common" else "uvm." + c["of"]
            g.node(k, "task" if c["kind"] == "task" else "func")
            if c["rel"] == "between":
                g.between(k, x, c["to"] if c["sched"] == "common"
                          else "uvm." + c["to"])
            else:
                getattr(g, {"with": "with_"}.get(c["rel"], c["rel"]))(k, k, x)
            if c["kind"] == "td":
                self.td.add(k)
            ctx.cov("custom_%s_%s" % (c["rel"], c["kind"]))
        # components move to their domain in the build phase: it joins the
        # graph last
        if plan["dom"] is not None:
            self.graph_domain("dom")

    def graph_domain(self, d):
        g = self.g
        g.chain([d + ".<"] + [d + "." + r for r in RUNTIME] + [d + ".>"],
                lambda n: "virtual" if n[-1] in "<>" else "task")
        g.with_(d + ".<", d + ".>", "run")

    async def run(self, ctx, plan):
        Cur.scn = self
        Cur.ctx = ctx
        self.plan = plan
        self.comps = {}
        self.td = set(["build"])
        self.log = []               # (seq, event, comp idx, node, time)
        self.n = 0
        self.started = {}           # node -> set(idx)
        self.ended = {}
        self.blind = {}
        self.begun = {}             # node -> time it started
        self.active = {}            # node -> phase object, between both
        self.models = {}            # node -> ObjModel
        self.touch = {}             # node -> time of last raise
        self.running = 0
        self.rte_n = {}
        self.running_tasks = set()
        self.build_graph(ctx, plan)
        self.scripts = {}
        for i, ph, ops in plan["scripts"]:
            self.scripts.setdefault((i, ph), ops)
        self.walks = set((a, b) for a, b in plan["walk"])
        self.wstate = []
        for w in plan["waits"]:
            ctx.spawn(self.state_waiter(*w))
        ctx.spawn(self.observer(ctx))
        self.over = False
        await run_test("PhTest")
        self.over = True
        self.judge(ctx, plan)

    def domain_of(self, i):
        dom = self.plan["dom"]
        if isinstance(dom, dict):
            while i > dom["root"]:
                p = self.plan["parents"][i]
                i = p if p < i else -1
            return "dom" if i == dom["root"] else "uvm"
        return "dom" if dom is not None and i in dom else "uvm"

    def runs_in(self, node):
        """Components that take part in the node."""
        if "." not in node:
            return set(self.comps)
        d = node.split(".")[0]
        return set(i for i in self.comps if self.domain_of(i) == d)

    def ev(self, kind, comp, node):
        self.n += 1
        self.log.append((self.n, kind, comp.idx, node, self.tick()))
        Cur.ctx.rec(kind, comp.idx, node)

    # -- hooks -----------------------------------------------------------
    def on_started(self, comp, phase):
        ctx = Cur.ctx
        k = self.key(phase)
        self.ev("started", comp, k)
        ctx.check(k in self.g.pred, "unknown_phase", "phase %s" % k)
        s = self.started.setdefault(k, set())
        ctx.check(comp.idx not in s, "phase_twice",
                  "%s started twice for component %d" % (k, comp.idx))
        s.add(comp.idx)
        for p in self.g.real_adj(k, self.g.pred):
            want = self.runs_in(p) if p != "build" else set(self.comps)
            ctx.check(self.ended.get(p, set()) >= want, "phase_order",
                      lambda: "%s started for component %d but %s has ended "
                      "only for %s of %s" % (
                          k, comp.idx, p, sorted(self.ended.get(p, ())),
                          sorted(want)))
        if k not in self.active:
            self.active[k] = phase
            self.begun[k] = self.tick()
            if self.g.kind[k] == "task":
                self.new_model(k, phase)

    def new_model(self, k, phase):
        parent = {"top": None, -1: "top"}
        for i, p in enumerate(self.plan["parents"]):
            parent[i] = p if p < i else -1
        drain = dict((c, 0) for c in parent)
        for who, ph, t in self.plan["drain"]:
            if ph == phase.get_name() and who in parent and not any(
                    drain.values()):
                drain[who] = t * 1000 + 130
                obj = phase.get_objection()
                if who == "top":
                    obj.set_drain_time(None, drain[who])
                elif who in self.comps:
                    obj.set_drain_time(self.comps[who], drain[who])
                Cur.ctx.cov("drain")
        self.models[k] = ObjModel(parent, drain, dict((c, 0) for c in parent))

    def on_func(self, comp, phase, name):
        ctx = Cur.ctx
        k = self.key(phase)
        self.ev("exec", comp, k)
        if name == "build":
            for i, p in enumerate(self.plan["parents"]):
                p = p if p < i else -1
                if p == comp.idx:
                    c = PhComp("n%d" % i, comp)
                    c.idx = i
                    self.comps[i] = c
            if comp.idx == -1 and self.plan["dom"] is not None:
                self.domains["dom"] = UVMDomain("dom")
            if self.domain_of(comp.idx) == "dom" and not isinstance(
                    self.plan["dom"], dict):
                comp.set_domain(self.domains["dom"], False)
                ctx.cov("custom_domain")
        else:
            dom = self.plan["dom"]
            if name == "connect" and isinstance(dom, dict) and \
                    comp.idx == (dom["root"] if dom["at"] == "self" else -1):
                self.comps[dom["root"]].set_domain(self.domains["dom"])
                ctx.cov("custom_domain_hier")
            ctx.eq(phase.get_state(), UVM_PHASE_EXECUTING, "func_state",
                   "state while %s executes" % k)
        if (comp.idx, name) in self.walks:
            found = []
            root().find_all("*", found)
            ctx.fault("hierarchy_walk")
            want = sorted(c.get_full_name() for c in self.comps.values())
            got = sorted(c.get_full_name() for c in found)
            ctx.eq(got, want, "find_all", "components found")

    async def on_task(self, comp, phase, name):
        ctx = Cur.ctx
        k = self.key(phase)
        self.ev("exec", comp, k)
        ops = self.scripts.get((comp.idx, name))
        held = 0
        for d, op, cnt in ops or ():
            await ctx.delay(d)
            if k in self.ended:
                return
            if op == "raise":
                held += cnt
                self.obj_op(comp, phase, k, 1, cnt)
            else:
                cnt = held if op == "dropall" else min(cnt, held)
                if cnt:
                    held -= cnt
                    self.obj_op(comp, phase, k, -1, cnt)
        if (comp.idx, name) in self.scripts:
            ctx.cov("task_done")

    def obj_op(self, comp, phase, k, sign, cnt):
        m = self.models[k]
        now = self.tick()
        m.advance(now)
        if sign > 0:
            self.touch[k] = now
            if not m.tot["top"]:
                # raised while the phase waits for a sibling, not for its own
                # objections: it may miss the drain, as in the UVM reference
                self.blind[k] = any(
                    self.runs_in(x) and x not in self.ended and
                    (x not in self.models or self.begun[x] == now or
                     not self.quiet(x) or self.touch.get(x) == now)
                    for x in self.g.siblings(k))
            m.raise_(comp.idx, cnt, now)
            phase.raise_objection(comp, "x", cnt)
        else:
            m.drop(comp.idx, cnt, now)
            phase.drop_objection(comp, "x", cnt)
        Cur.ctx.rec("raise" if sign > 0 else "drop", comp.idx, k, cnt)

    def on_rte(self, comp, phase):
        ctx = Cur.ctx
        k = self.key(phase)
        ctx.check(k in self.active, "rte_order",
                  "phase_ready_to_end(%s) outside the phase" % k)
        c = self.rte_n[(comp.idx, k)] = self.rte_n.get((comp.idx, k), 0) + 1
        ctx.rec("rte", comp.idx, k, c)
        # while a sibling that starts in this very time slot is awaited, the
        # phase does not look at its own objections again (as in the UVM
        # reference), nor if the raise itself is of this time slot
        if self.touch.get(k) != self.tick() and not any(
                self.begun.get(s) == self.tick() for s in self.g.siblings(k)):
            ctx.eq(int(phase.get_objection().get_objection_total()), 0,
                   "rte_objection", "%s is ready to end while objections are "
                   "raised" % k)
        for who, ph, ds in self.plan["rte"]:
            if who == comp.idx and ph == phase.get_name() and c <= len(ds):
                self.obj_op(comp, phase, k, 1, 1)
                ctx.spawn(self.rte_drop(comp, phase, k, ds[c - 1]))
                ctx.cov("rte_extend")
                break

    async def rte_drop(self, comp, phase, k, d):
        await Cur.ctx.delay(d)
        Cur.ctx.check(k not in self.ended, "rte_extension",
                      lambda: "%s ended although a ready_to_end callback had "
                      "raised an objection" % k)
        self.obj_op(comp, phase, k, -1, 1)

    def on_ended(self, comp, phase):
        ctx = Cur.ctx
        k = self.key(phase)
        self.ev("ended", comp, k)
        s = self.ended.setdefault(k, set())
        ctx.check(comp.idx not in s, "phase_twice",
                  "%s ended twice for component %d" % (k, comp.idx))
        ctx.check(k == "build" or comp.idx in self.started.get(k, ()),
                  "phase_order",
                  "%s ended before it started for %d" % (k, comp.idx))
        s.add(comp.idx)
        if self.g.kind[k] == "task":
            m = self.models[k]
            m.advance(self.tick())
            held = dict((c, n) for c, n in m.tot.items() if n)
            ctx.check(not held, "early_end", lambda: "%s ended at %d while "
                      "objections are held: %r" % (k, self.tick(), held))
            # an objection raised and dropped within one time slot may go
            # unnoticed (as in the UVM reference), and then does not drain
            ctx.check(not m.pend or self.touch.get(k) == m.zero_at["top"] or
                      self.blind.get(k),
                      "drain_cut", lambda: "%s ended at %d while "
                      "objections drain: %r" % (k, self.tick(), m.pend))
            for sib in self.g.siblings(k):
                if not self.runs_in(sib):
                    continue                # nobody there to tell us
                ctx.check(sib in self.started, "sibling",
                          lambda: "%s ended before %s, which shares its "
                          "successor, began" % (k, sib))
                if sib in self.ended or sib not in self.models:
                    continue
                sm = self.models[sib]
                sm.advance(self.tick())
                ctx.check(not any(sm.tot.values()) or
                          self.touch.get(sib) == self.tick(), "sibling",
                          lambda: "%s ended while %s holds %r"
                          % (k, sib, sm.tot))
        self.active.pop(k, None) if s >= self.runs_in(k) else None

    # -- liveness --------------------------------------------------------
    async def observer(self, ctx):
        await Timer(500, "PS")
        while not self.over:
            self.settled(ctx)
            await Timer(1, "NS")
            ctx.check(ctx.now < 600000, "stuck", lambda: "the test does not "
                      "end: active %r" % sorted(self.active))

    def quiet(self, k):
        m = self.models.get(k)
        if m is None:
            return k in self.ended
        return not any(m.tot.values()) and not m.pend

    def settled(self, ctx):
        now = self.tick()
        for k, ph in list(self.active.items()):
            if self.g.kind[k] == "func":
                # function phases take no time
                ctx.check([x for x in self.g.siblings(k)
                           if x not in self.ended and self.runs_in(x)],
                          "func_time", lambda: "function phase %s still "
                          "active at %d" % (k, now))
                continue
            m = self.models[k]
            m.advance(now)
            sibs = self.g.siblings(k)
            if self.quiet(k) and all(
                    (s in self.started and self.quiet(s)) or s in self.ended
                    or not self.runs_in(s)
                    for s in sibs):
                ctx.fail("late_end", "%s is still active at %d with no "
                         "objection left (siblings %r)" % (k, now, sibs))
            real = int(ph.get_objection().get_objection_total())
            ctx.eq(real > 0, m.tot["top"] > 0, "objection_total",
                   "%s at %d real %d model %r" % (k, now, real, m.tot))
        for w in self.wstate:
            ctx.check(not w["func"](), "missed_state", lambda: "blocked in "
                      "wait_for_state(%s %s, %s) although it holds"
                      % (w["op"], w["st"], w["ph"]))
        ctx.state(tuple(sorted(self.active)),
                  tuple(sorted((k, m.tot["top"])
                               for k, m in self.models.items()
                               if k in self.active)))

    async def state_waiter(self, ph, st, op, d):
        ctx = Cur.ctx
        await ctx.delay(d)
        if ph.startswith("cust"):
            return
        dom = self.domains["common"]
        node = dom.find(CLS[ph].get(), False) if ph in COMMON else \
            self.sched.find(CLS[ph].get(), True)
        if node is None:
            return
        S = {"STARTED": UVM_PHASE_STARTED, "EXECUTING": UVM_PHASE_EXECUTING,
             "READY_TO_END": UVM_PHASE_READY_TO_END, "ENDED": UVM_PHASE_ENDED,
             "DONE": UVM_PHASE_DONE}[st]
        O = {"GTE": UVM_GTE, "EQ": UVM_EQ, "GT": UVM_GT}[op]

        def func():
            s = node.get_state()
            return {"GTE": s >= S, "EQ": bool(s & S), "GT": s > S}[op]
        w = {"ph": ph, "st": st, "op": op, "func": func}
        if op == "GT" and st == "DONE":
            return
        self.wstate.append(w)
        t0 = ctx.now
        held = func()
        await node.wait_for_state(S, O)
        self.wstate.remove(w)
        if held:
            ctx.eq(ctx.now, t0, "wait_state_late", "wait_for_state(%s %s, %s)"
                   " on a state already reached" % (op, st, ph))
        if op != "EQ":
            ctx.check(func(), "wait_state_early", lambda: "wait_for_state"
                      "(%s %s, %s) returned in state %s"
                      % (op, st, ph, node.get_state()))
        ctx.cov("wait_for_state")

    # -- history ---------------------------------------------------------
    def judge(self, ctx, plan):
        all_ = set(self.comps)
        ctx.eq(all_, set(range(-1, len(plan["parents"]))), "components",
               "built components")
        for k, kind in self.g.kind.items():
            if kind == "virtual":
                continue
            want = self.runs_in(k)
            for e in ("started", "exec", "ended"):
                got = [x[2] for x in self.log if x[1] == e and x[3] == k]
                if e == "started" and k == "build":
                    # components built during build cannot have been told
                    ctx.check(set(got) <= want, "phase_missing", k)
                    continue
                ctx.eq(sorted(got), sorted(want), "phase_missing",
                       "components that saw %s %s" % (k, e))
            if kind == "func":
                got = [x[2] for x in self.log if x[1] == "exec" and x[3] == k]
                for i, p in enumerate(plan["parents"]):
                    p = p if p < i else -1
                    if i in want and p in want:
                        td = k in self.td
                        ctx.check((got.index(p) < got.index(i)) == td,
                                  "hier_order", lambda: "%s must run %s: %r"
                                  % (k, "top-down" if td else "bottom-up",
                                     got))
        # start / exec / end of one node never interleave wrongly
        for k in self.g.kind:
            ev = [x for x in self.log if x[3] == k]
            kinds = [x[1] for x in ev]
            if "exec" in kinds and "started" in kinds and k != "build":
                last_s = max(i for i, x in enumerate(kinds) if x == "started")
                first_e = min(i for i, x in enumerate(kinds) if x == "exec")
                ctx.check(last_s < first_e, "phase_order",
                          "%s executes before all have started" % k)
            if "exec" in kinds and "ended" in kinds:
                last_e = max(i for i, x in enumerate(kinds) if x == "exec")
                first_d = min(i for i, x in enumerate(kinds) if x == "ended")
                ctx.check(last_e < first_d, "phase_order",
                          "%s executes after it ended" % k)
        ctx.nontrivial = len(plan["scripts"]) > 0

    def valid(self, plan):
        dom = plan["dom"]
        return dom["root"] < len(plan["parents"]) \
            if isinstance(dom, dict) else dom != []


class PhaseOrder(PhaseScenario):
    name = "phase_order"


class PhaseRuntime(PhaseScenario):
    name = "phase_runtime"
    runtime = True


class PhaseCustom(PhaseScenario):
    name = "phase_custom"
    runtime = True
    customs = True
