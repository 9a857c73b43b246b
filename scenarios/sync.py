"""Synchronisation primitives: UVMEvent, UVMBarrier, semaphore, fork/join."""
from simkit.uvmkit import *
from simkit.uvmkit import Delays, core
from uvm.base.uvm_event import UVMEvent
from uvm.base.uvm_barrier import UVMBarrier
from uvm.base.uvm_pool import UVMEventPool, UVMBarrierPool
from uvm.base.sv import semaphore

REAL = {"real": ["uvm.base event/barrier/pool/sv", "cocotb scheduler "
                 "bookkeeping, Event, Join, Combine, First"],
        "stub": ["HDL simulator kernel (virtual-time event heap)"]}


class EvCb(object):
    def __init__(self, scn, n, vetoes):
        self.scn = scn
        self.n = n
        self.vetoes = set(vetoes)

    def pre_trigger(self, e, data):
        self.scn.cblog.append(("pre", self.n, data))
        return data in self.vetoes

    def post_trigger(self, e, data):
        self.scn.cblog.append(("post", self.n, data))


class EventScenario(core.Scenario):
    name = "uvm_event"
    components = REAL
    max_steps = 20000

    def gen(self, rng, tier):
        big = 8 if tier == "quick" else 24
        waiters = []
        for _ in range(rng.randint(1, 6)):
            ops = [[Delays.gen(rng), rng.choice(
                ["wait_trigger"] * 3 + ["wait_trigger_data", "wait_ptrigger",
                                        "wait_on", "wait_off",
                                        "wait_ptrigger_data"]),
                    rng.random() < 0.3]
                   for _ in range(rng.randint(1, big))]
            waiters.append(ops)
        trig = []
        n = 0
        for _ in range(rng.randint(1, 3)):
            ops = []
            for _ in range(rng.randint(1, big)):
                n += 1
                k = rng.choice(["trigger"] * 6 + ["reset", "reset_wakeup"])
                ops.append([Delays.gen(rng), k, n])
            trig.append(ops)
        cbs = []
        if rng.random() < 0.5:
            for c in range(rng.randint(1, 3)):
                cbs.append([rng.random() < 0.5,
                            sorted(rng.sample(range(1, n + 1),
                                              min(n, rng.randint(0, 3))))])
            for ops in trig:
                for _ in range(rng.choice([0, 0, 1, 2, 3])):
                    ops.insert(rng.randint(0, len(ops)), [
                        Delays.gen(rng), rng.choice(
                            ["cb_del", "cb_del", "cb_add", "cb_front"]),
                        rng.randrange(len(cbs))])
        kills = [[rng.randint(0, 12), rng.randrange(len(waiters))]
                 for _ in range(rng.choice([0, 0, 1, 2]))]
        return {"waiters": waiters, "trig": trig, "cbs": cbs, "kills": kills,
                "pool": rng.random() < 0.3}

    def valid(self, plan):
        return all(o[2] < len(plan["cbs"]) for ops in plan["trig"]
                   for o in ops if o[1].startswith("cb_"))

    async def run(self, ctx, plan):
        if plan["pool"]:
            pool = UVMEventPool("pool")
            ev = pool.get("e")
            ctx.check(pool.get("e") is ev, "pool_identity",
                      "two lookups of one key gave different events")
        else:
            ev = UVMEvent("e")
        self.ev = ev
        self.cblog = []
        order = []
        self.cbs = []
        for i, (app, vetoes) in enumerate(plan["cbs"]):
            cb = EvCb(self, i, vetoes)
            self.cbs.append(cb)
            if app:
                ev.add_callback(cb)
            else:
                ev.add_callback(cb, False)
            if app:
                order.append(cb)
            else:
                order.insert(0, cb)
        self.on = False
        self.last = None          # data of last effective trigger
        self.last_t = None        # its time, None after reset
        self.nfire = 0
        self.pend = {}            # waiter -> dict
        self.fin = set()
        self.killed = set()
        ft = [ctx.spawn(self.trigger(ctx, ops, order))
              for ops in plan["trig"]]
        wt = [ctx.spawn(self.waiter(ctx, i, ops))
              for i, ops in enumerate(plan["waiters"])]

        async def killer():
            last = 0
            for t, i in sorted(plan["kills"]):
                await ctx.delay(t - last)
                last = t
                if i < len(wt) and not wt[i].done():
                    ctx.kill(wt[i])
                    self.killed.add(i)
                    p = self.pend.pop(i, None)
                    if p and p["counted"]:
                        ev.cancel()
                        self.count(ctx, "after cancel")
        kt = ctx.spawn(killer())
        while not (all(t.done() for t in ft) and kt.done()):
            await ctx.quiesce(1)
            self.settled(ctx)
        await ctx.quiesce(20)
        self.settled(ctx)
        ctx.nontrivial = self.nfire > 0 and bool(plan["waiters"])
        for t in wt:
            t.kill()

    def count(self, ctx, why):
        """Processes waiting since the last trigger or reset."""
        ctx.eq(self.ev.get_num_waiters(),
               sum(p["counted"] for p in self.pend.values()),
               "num_waiters", why)

    def uncount(self):
        for p in self.pend.values():
            p["counted"] = False

    def settled(self, ctx):
        """Nothing can run any more at this instant: who is still blocked?"""
        ctx.eq(bool(self.ev.is_on()), self.on, "is_on")
        ctx.eq(bool(self.ev.is_off()), not self.on, "is_off")
        self.count(ctx, "blocked processes")
        for i, p in self.pend.items():
            if p["op"] in ("wait_trigger", "wait_trigger_data",
                           "wait_ptrigger", "wait_ptrigger_data"):
                ctx.check(p["fired"] is None, "missed_trigger",
                          lambda: "waiter %d in %s since %d missed the "
                          "trigger at %s" % (i, p["op"], p["t"], p["fired"]))
            elif p["op"] == "wait_on":
                ctx.check(not self.on, "missed_on",
                          "wait_on blocked while the event is on")
            elif p["op"] == "wait_off":
                ctx.check(self.on, "missed_off",
                          "wait_off blocked while the event is off")
        ctx.state(self.on, len(self.pend))

    def fire(self, ctx, why):
        for p in self.pend.values():
            if p["orphan"] or p["fired"] is not None:
                continue
            p["fired"] = ctx.now
            p["why"] = why

    async def trigger(self, ctx, ops, order):
        ev = self.ev
        for d, k, n in ops:
            await ctx.delay(d)
            if k.startswith("cb_"):
                cb = self.cbs[n]
                if k == "cb_del":
                    ev.delete_callback(cb)
                    if cb in order:
                        order.remove(cb)
                    ctx.fault("callback_deleted")
                else:
                    ev.add_callback(cb, k == "cb_add")
                    if cb not in order:
                        order.insert(len(order) if k == "cb_add" else 0, cb)
                continue
            if k == "trigger":
                veto = any(n in c.vetoes for c in order)
                if not veto:
                    self.fire(ctx, n)
                del self.cblog[:]
                ev.trigger(n)
                want_pre = [("pre", c.n, n) for c in order]
                want_post = [] if veto else [("post", c.n, n) for c in order]
                got_pre = [x for x in self.cblog if x[0] == "pre"]
                got_post = [x for x in self.cblog if x[0] == "post"]
                if not veto:
                    ctx.eq(got_pre, want_pre, "pre_trigger", "callbacks run")
                ctx.eq(got_post, want_post, "post_trigger", "callbacks run")
                if veto:
                    ctx.fault("veto")
                else:
                    self.nfire += 1
                    self.uncount()
                    self.count(ctx, "after trigger")
                    self.on = True
                    self.last = n
                    self.last_t = ctx.now
                    ctx.eq(ev.get_trigger_time(), ctx.now / 1000.0,
                           "trigger_time")
                    ctx.eq(ev.get_trigger_data(), n, "trigger_data")
            elif k == "reset_wakeup":
                self.fire(ctx, "reset")
                ev.reset(True)
                self.uncount()
                self.on = False
                self.last_t = None
                ctx.fault("reset_wakeup")
            else:
                for p in self.pend.values():
                    if p["fired"] is None and p["op"] not in (
                            "wait_on", "wait_off"):
                        p["orphan"] = True
                ev.reset()
                self.uncount()
                self.on = False
                self.last_t = None
                ctx.fault("reset")
                ctx.eq(ev.get_trigger_time(), 0, "trigger_time",
                       "after reset")
            ctx.eq(bool(ev.is_on()), self.on, "is_on", k)

    async def waiter(self, ctx, i, ops):
        ev = self.ev
        for d, op, delta in ops:
            await ctx.delay(d)
            p = {"op": op, "t": ctx.now, "fired": None, "why": None,
                 "orphan": False, "counted": True}
            imm = None
            if op.startswith("wait_ptrigger"):
                imm = self.last_t is not None and self.last_t == ctx.now
            elif op == "wait_on":
                imm = self.on
            elif op == "wait_off":
                imm = not self.on
            if not imm:
                self.pend[i] = p
            data = None
            if op == "wait_trigger":
                await ev.wait_trigger()
            elif op == "wait_trigger_data":
                data = await ev.wait_trigger_data()
            elif op == "wait_ptrigger":
                await ev.wait_ptrigger()
            elif op == "wait_ptrigger_data":
                out = []
                data = await ev.wait_ptrigger_data(out)
                ctx.eq(out, [data], "trigger_data", "wait_ptrigger_data")
            elif op == "wait_on":
                await ev.wait_on(delta)
            else:
                await ev.wait_off(delta)
            self.pend.pop(i, None)
            if imm:
                ctx.eq(ctx.now, p["t"], "not_immediate", op)
            elif op == "wait_on":
                ctx.check(self.on, "early_on", "wait_on returned, event off")
            elif op == "wait_off":
                ctx.check(not self.on, "early_off",
                          "wait_off returned, event on")
            else:
                ctx.check(p["fired"] is not None, "early_trigger",
                          lambda: "%s called at %d returned at %d without a "
                          "trigger in between" % (op, p["t"], ctx.now))
                ctx.eq(ctx.now, p["fired"], "late_trigger", op)
            if op.endswith("_data"):
                ctx.eq(data, self.last, "trigger_data", op)
            ctx.rec(i, op)
        self.fin.add(i)


class BarrierScenario(core.Scenario):
    name = "uvm_barrier"
    components = REAL
    max_steps = 20000

    def gen(self, rng, tier):
        big = 6 if tier == "quick" else 20
        n = rng.randint(1, 6)
        return {"threshold": rng.randint(1, max(1, n)),
                "procs": [[Delays.gen(rng) for _ in range(rng.randint(1, big))]
                          for _ in range(n)],
                "ctl": [[rng.randint(0, 12), rng.choice(
                    ["threshold", "reset", "kill", "kill", "reset_nowake",
                     "auto", "manual"]),
                    rng.randint(1, n)]
                    for _ in range(rng.choice([0, 0, 1, 2, 3]))],
                "auto": rng.random() < 0.8, "pool": rng.random() < 0.3,
                "dflt": rng.random() < 0.3}

    async def run(self, ctx, plan):
        if plan["pool"]:
            b = UVMBarrierPool("bp").get("b")
            ctx.eq(b.get_threshold(), 0, "get_threshold", "new barrier")
            b.set_threshold(plan["threshold"])
        else:
            b = UVMBarrier("b", plan["threshold"])
        self.auto = plan["auto"]
        if not self.auto:
            b.set_auto_reset(0)
        self.b = b
        self.T = plan["threshold"]
        self.at = False
        self.waiting = {}       # proc -> start time, not yet released
        self.released = {}      # proc -> release time, not yet returned
        self.orphans = set()
        self.gen_no = 0
        ctx.eq(b.get_threshold(), self.T, "get_threshold")

        def release():
            for i in self.waiting:
                self.released[i] = ctx.now
            self.waiting.clear()
            self.gen_no += 1

        async def proc(i, ds):
            for d in ds:
                await ctx.delay(d)
                t0 = ctx.now
                if self.at:
                    await b.wait_for()
                    ctx.eq(ctx.now, t0, "not_open",
                           "wait_for blocked on an open barrier")
                    continue
                self.waiting[i] = t0
                if len(self.waiting) >= self.T:
                    if not self.auto:
                        self.at = True
                    release()
                await b.wait_for()
                ctx.check(i in self.released, "early",
                          lambda: "process %d passed with %d of %d waiting"
                          % (i, len(self.waiting), self.T))
                ctx.eq(ctx.now, self.released.pop(i), "late",
                       "release time")
                ctx.rec(i, "pass", self.gen_no)
        ts = [ctx.spawn(proc(i, ds)) for i, ds in enumerate(plan["procs"])]

        def settled():
            ctx.check(not self.released, "stuck",
                      lambda: "released but still blocked: %r" %
                      sorted(self.released))
            ctx.eq(b.get_num_waiters(), len(self.waiting), "num_waiters")
            ctx.state(self.T, len(self.waiting), self.at)

        async def ctl():
            last = 0
            for t, k, x in sorted(plan["ctl"]):
                await ctx.delay(t - last)
                last = t
                if k == "threshold":
                    self.T = x
                    if x <= len(self.waiting):
                        if self.waiting:
                            release()
                        self.at = False
                    b.set_threshold(x)
                    ctx.eq(b.get_threshold(), x, "get_threshold")
                elif k == "reset":
                    ctx.fault("reset_wakeup")
                    self.at = False
                    release()
                    if plan["dflt"]:
                        b.reset()
                    else:
                        b.reset(1)
                elif k == "reset_nowake":
                    ctx.fault("reset_nowake")
                    self.at = False
                    self.orphans |= set(self.waiting)
                    self.waiting.clear()
                    b.reset(0)
                elif k == "auto":
                    self.at = False
                    self.auto = True
                    if plan["dflt"]:
                        b.set_auto_reset()
                    else:
                        b.set_auto_reset(1)
                elif k == "manual":
                    self.at = False
                    self.auto = False
                    b.set_auto_reset(0)
                else:
                    i = x - 1
                    if i in self.waiting and not ts[i].done():
                        ctx.kill(ts[i])
                        del self.waiting[i]
                        b.cancel()
        ct = ctx.spawn(ctl())
        for _ in range(40):
            await ctx.quiesce(1)
            settled()
            if ct.done() and all(t.done() or i in self.waiting or
                                 i in self.orphans
                                 for i, t in enumerate(ts)):
                break
        await ctx.quiesce(10)
        settled()
        ctx.nontrivial = self.gen_no > 0
        for t in ts:
            t.kill()


class SemScenario(core.Scenario):
    name = "semaphore"
    components = REAL
    max_steps = 20000

    def gen(self, rng, tier):
        big = 6 if tier == "quick" else 20
        m = rng.choice([1, 1, 2, 3, 4])
        return {"max": m,
                "procs": [[[Delays.gen(rng), Delays.gen(rng),
                            rng.randint(1, m), rng.random() < 0.3]
                           for _ in range(rng.randint(1, big))]
                          for _ in range(rng.randint(1, 5))],
                "kills": [[rng.randint(0, 12), rng.randrange(5)]
                          for _ in range(rng.choice([0, 0, 1, 2]))],
                "dflt": rng.random() < 0.4, "over": rng.random() < 0.3}

    async def run(self, ctx, plan):
        m = plan["max"]
        dflt = plan["dflt"]

        def args(n):
            return () if dflt and n == 1 else (n,)
        s = semaphore(*args(m))
        self.held = {}
        self.blocked = {}

        def avail():
            return m - sum(self.held.values())

        async def proc(i, ops):
            for d, hold, n, tr in ops:
                await ctx.delay(d)
                if tr:
                    a = avail()
                    ok = s.try_get(*args(n))
                    ctx.eq(ok, a >= n, "try_get",
                           "try_get(%d) with %d available" % (n, a))
                    if not ok:
                        continue
                else:
                    self.blocked[i] = n
                    await s.get(*args(n))
                    del self.blocked[i]
                self.held[i] = n
                ctx.check(avail() >= 0, "mutex",
                          lambda: "keys held %r of %d" % (self.held, m))
                ctx.rec(i, "in", n)
                await ctx.delay(hold)
                del self.held[i]
                s.put(*args(n))
        ts = [ctx.spawn(proc(i, o)) for i, o in enumerate(plan["procs"])]

        async def killer():
            last = 0
            for t, i in sorted(plan["kills"]):
                await ctx.delay(t - last)
                last = t
                if i in self.blocked and not ts[i].done():
                    ctx.kill(ts[i])
                    self.blocked.pop(i)
        kt = ctx.spawn(killer())
        if plan["over"]:
            # more keys than exist can never be granted
            a = avail()
            ctx.eq(s.try_get(m + 1), False, "try_get", "more than exist")
            try:
                await s.get(m + 1)
            except Exception:
                pass
            else:
                ctx.fail("over", "got %d keys of %d" % (m + 1, m))
        for _ in range(400):
            await ctx.quiesce(1)
            for i, n in self.blocked.items():
                ctx.check(avail() < n, "stuck", lambda: "process %d waits for "
                          "%d keys, %d are available" % (i, n, avail()))
            ctx.state(m, avail(), len(self.blocked))
            if kt.done() and all(t.done() for t in ts):
                break
        else:
            ctx.fail("stuck", "workers never finished: blocked %r held %r"
                     % (self.blocked, self.held))
        ctx.check(s.try_get(m), "leak", "keys were lost")
        ctx.nontrivial = len(plan["procs"]) > 1


class ForkScenario(core.Scenario):
    name = "fork_join"
    components = REAL

    def gen(self, rng, tier):
        def tree(depth):
            kind = rng.choice(["join", "join", "any", "none"])
            kids = []
            for _ in range(rng.randint(1, 4)):
                if depth and rng.random() < 0.35:
                    kids.append(tree(depth - 1))
                else:
                    kids.append([Delays.gen(rng, 6)])
            return {"kind": kind, "kids": kids}
        return {"tree": tree(3)}

    async def run(self, ctx, plan):
        self.n = 0

        async def leaf(d):
            self.n += 1
            await ctx.delay(d)

        async def node(t):
            """Runs subtree; returns nothing.  done[] collects end times."""
            if isinstance(t, list):
                await leaf(t[0] if t else 0)
                return
            done = []
            started = ctx.now

            async def kid(k):
                await node(k)
                done.append(ctx.now)
            coros = [kid(k) for k in t["kids"]]
            n = len(coros)
            if n == 0:
                return
            if t["kind"] == "none":
                procs = await sv.fork_join_none(coros)
                ctx.eq(len(procs), n, "fork_none", "processes returned")
                ctx.eq(ctx.now, started, "fork_none", "blocked")
                for p in procs:
                    if not p.done():
                        await p
                ctx.eq(len(done), n, "fork_none", "children completed")
            else:
                tasks = [cocotb.start_soon(c) for c in coros]
                if t["kind"] == "join":
                    await sv.fork_join(tasks)
                    ctx.eq(len(done), n, "fork_join", "children completed")
                    ctx.eq(ctx.now, max(done), "fork_join", "return time")
                else:
                    await sv.fork_join_any(tasks)
                    ctx.check(len(done) >= 1, "fork_any",
                              "returned before any child completed")
                    ctx.eq(ctx.now, min(done), "fork_any", "return time")
                    for p in tasks:
                        if not p.done():
                            await p
                    ctx.eq(len(done), n, "fork_any", "children completed")
            ctx.rec(t["kind"], n)
        await node(plan["tree"])
        ctx.nontrivial = True
