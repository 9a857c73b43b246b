"""TLM FIFO channels: real FIFO, real ports, random schedules and kills."""
from simkit.uvmkit import *
from simkit.uvmkit import Cur, Delays, UvmScenario, root, sev_count


class PutAgent(UVMComponent):
    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.put_port = UVMPutPort("put_port", self)
        self.ap = UVMAnalysisPort("ap", self)


class GetAgent(UVMComponent):
    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.get_port = UVMGetPeekPort("get_port", self)


PUTS = ["put_export", "blocking_put_export", "nonblocking_put_export"]
GETS = ["get_peek_export", "get_export", "peek_export",
        "blocking_get_export", "blocking_peek_export",
        "blocking_get_peek_export", "nonblocking_get_export",
        "nonblocking_peek_export", "nonblocking_get_peek_export"]


class ApMon(UVMSubscriber):
    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.seen = []
        self.cb = None

    def write(self, t):
        self.seen.append(t)
        if self.cb:
            self.cb(t)


class FifoScenario(UvmScenario):
    """Producers and consumers on one FIFO of random depth; every op goes
    through a real port.  Blocked tasks are killed at random.  The oracle is a
    deque driven by the FIFO's own put/get notifications and by op results."""
    name = "fifo"
    kills = True
    flushes = False
    max_steps = 30000

    def gen(self, rng, tier):
        big = 14 if tier == "quick" else 40
        size = rng.choice([0, 1, 1, 2, 3, 5])
        actors = []
        uid = [0]
        kind = rng.choice(["fifo"] * 3 + ["afifo"])

        def ops(role):
            out = []
            for _ in range(rng.randint(1, big)):
                d = Delays.gen(rng)
                if role == "p":
                    k = rng.choice(["put", "put", "put", "try_put"] +
                                   ["write"] * (kind == "afifo"))
                    uid[0] += 1
                    out.append([d, k, uid[0]])
                elif role == "c":
                    out.append([d, rng.choice(
                        ["get", "get", "get", "try_get", "peek", "try_peek"]),
                        rng.choice([0, 0, 1])])
                else:
                    out.append([d, "peek", rng.choice([0, 0, 1])])
            return out
        for _ in range(rng.randint(1, 4)):
            actors.append({"role": "p", "ops": ops("p")})
        for _ in range(rng.randint(1, 4)):
            actors.append({"role": "c", "ops": ops("c")})
        if rng.random() < 0.4:
            actors.append({"role": "k", "ops": ops("k")})
        kills = []
        if self.kills and rng.random() < 0.5:
            for _ in range(rng.randint(1, 3)):
                kills.append([rng.randint(0, 12), rng.randrange(len(actors))])
        flushes = []
        if self.flushes:
            for _ in range(rng.randint(1, 4)):
                flushes.append(rng.randint(0, 15))
        return {"size": size, "actors": actors, "kills": kills,
                "flushes": flushes, "kind": kind,
                "alias": [rng.randrange(60) for _ in actors]}

    # -- bench -----------------------------------------------------------
    def build(self, top):
        p = self.plan
        self.size = p["size"]
        if p["kind"] == "afifo":
            self.fifo = UVMTLMAnalysisFIFO("fifo", top)
            self.size = 0
        elif self.size == 1 and len(p["actors"]) % 2:
            self.fifo = UVMTLMFIFO("fifo", top)
        else:
            self.fifo = UVMTLMFIFO("fifo", top, self.size)
        if self.flushes:
            root().set_report_verbosity_level(UVM_LOW)
            self.fifo.set_report_verbosity_level(UVM_LOW)
        self.pm = ApMon("pm", top)
        self.gm = ApMon("gm", top)
        self.ag = []
        for i, a in enumerate(p["actors"]):
            cls = PutAgent if a["role"] == "p" else GetAgent
            self.ag.append(cls("ag%d" % i, top))

    def connect(self, top):
        for i, a in enumerate(self.ag):
            if isinstance(a, PutAgent):
                a.put_port.connect(self.alias(i, PUTS))
                if self.plan["kind"] == "afifo":
                    a.ap.connect(self.fifo.analysis_export)
            else:
                a.get_port.connect(self.alias(i, GETS))
        self.fifo.put_ap.connect(self.pm.analysis_export)
        self.fifo.get_ap.connect(self.gm.analysis_export)

    def alias(self, i, names):
        al = self.plan.get("alias") or [0]
        return getattr(self.fifo, names[al[i % len(al)] % len(names)])

    # -- model -----------------------------------------------------------
    def content(self):
        return self.pm.seen[len(self.gm.seen):]

    def observe(self, where):
        """Truthfulness of the non-blocking status calls at this instant."""
        ctx = Cur.ctx
        q = self.content()
        f = self.fifo
        n = len(q)
        ctx.state(self.size, n, len(self.waiting["get"]),
                  len(self.waiting["put"]), len(self.waiting["peek"]))
        if self.size:
            ctx.check(n <= self.size, "capacity",
                      lambda: "%s: %d items in a FIFO of size %d"
                      % (where, n, self.size))
        if self.check_status:
            ctx.eq(int(f.used()), n, "used", where)
            ctx.eq(bool(f.is_empty()), n == 0, "is_empty", where)
            ctx.eq(bool(f.is_full()), self.size != 0 and n == self.size,
                   "is_full", where)
            ctx.eq(int(f.size()), self.size, "size", where)
            ctx.eq(bool(f.can_put()), self.size == 0 or n < self.size,
                   "can_put", where)
            ctx.eq(bool(f.can_peek()), n > 0, "can_peek", where)
            if not self.killed_getter:
                ctx.eq(bool(f.can_get()),
                       n > 0 and not self.waiting["get"], "can_get", where)

    check_status = False

    async def actor(self, i, a):
        ctx = Cur.ctx
        ag = self.ag[i]
        for d, op, x in a["ops"]:
            await ctx.delay(d)
            if op == "put":
                self.waiting["put"][i] = x
                await ag.put_port.put(x)
                del self.waiting["put"][i]
                self.put_done.append(x)
                ctx.check(x in self.pm.seen, "put_lost",
                          "put(%r) returned but the item is not in the FIFO"
                          % x)
            elif op == "try_put":
                q = self.content()
                room = self.size == 0 or len(q) < self.size
                ok = ag.put_port.try_put(x)
                ctx.eq(bool(ok), room, "try_put", "room=%s" % room)
                if ok:
                    self.put_done.append(x)
            elif op == "write":
                ag.ap.write(x)
                ctx.check(self.pm.seen[-1:] == [x], "put_lost",
                          "write(%r) returned but the item is not in the FIFO"
                          % x)
                self.put_done.append(x)
            elif op == "get":
                self.waiting["get"][i] = 1
                out = None if x else []
                r = await (self.fifo if x else ag.get_port).get(out)
                del self.waiting["get"][i]
                v = self.outval(out, r, "get")
                self.got.append(v)
                self.by_actor.setdefault(i, []).append(v)
            elif op == "try_get":
                q = self.content()
                out = []
                ok = ag.get_port.try_get(out)
                ctx.eq(bool(ok), len(q) > 0, "try_get", "content=%r" % q)
                if ok:
                    ctx.eq(out, [q[0]], "try_get_item", "content=%r" % q)
                    self.got.append(out[0])
                    self.by_actor.setdefault(i, []).append(out[0])
                else:
                    ctx.eq(out, [], "try_get_item", "failed try_get")
            elif op == "peek":
                self.waiting["peek"][i] = 1
                out = None if x else []
                r = await (self.fifo if x else ag.get_port).peek(out)
                del self.waiting["peek"][i]
                v = self.outval(out, r, "peek")
                # a blocking peek returns an item that was the head at some
                # instant while the call was pending and is still unconsumed
                # or has been consumed since; at the instant it wakes it must
                # have been the head, so at most later gets may be ahead of it
                ctx.check(v in self.pm.seen, "peek_item",
                          "peek returned %r, never put" % (v,))
                idx = self.pm.seen.index(v)
                ctx.check(idx <= len(self.gm.seen), "peek_order",
                          "peek returned %r, not the head; content %r"
                          % (v, self.content()))
            elif op == "try_peek":
                q = self.content()
                out = []
                ok = ag.get_port.try_peek(out)
                ctx.eq(bool(ok), len(q) > 0, "try_peek", "content=%r" % q)
                if ok:
                    ctx.eq(out, [q[0]], "try_peek_item", "content=%r" % q)
            self.observe("after %s" % op)
        self.finished.add(i)

    def outval(self, out, r, op):
        ctx = Cur.ctx
        if out is None:
            ctx.check(r is not None, op + "_out", op + " returned nothing")
            return r
        ctx.eq(len(out), 1, op + "_out", "%s wrote %r" % (op, out))
        ctx.check(r is None or r == out[0], op + "_out",
                  "%s returned %r but wrote %r" % (op, r, out))
        return out[0]

    def do_flush(self):
        ctx = Cur.ctx
        q = list(self.content())
        n = len(self.gm.seen)
        waiting = dict(self.waiting["get"])
        err = sev_count(UVM_ERROR)
        self.fifo.flush()
        ctx.fault("flush")
        left = self.content()
        ctx.eq(sev_count(UVM_ERROR) - err, int(bool(left and waiting)),
               "flush_error", "errors reported by flush, which left %r" % left)
        ctx.eq(self.gm.seen[n:], q[:len(self.gm.seen) - n], "flush_items",
               "items reported removed by flush")
        if not waiting:
            ctx.eq(left, [], "flush_left", "FIFO content after flush")
            ctx.eq(int(self.fifo.used()), 0, "flush_used", "used after flush")
        self.flushed += self.gm.seen[n:]

    async def main(self, top, phase):
        ctx = Cur.ctx
        p = self.plan
        self.waiting = {"put": {}, "get": {}, "peek": {}}
        self.put_done = []
        self.got = []
        self.flushed = []
        self.by_actor = {}
        self.finished = set()
        self.killed_getter = False
        tasks = [ctx.spawn(self.actor(i, a)) for i, a in enumerate(p["actors"])]
        evs = [(t, "kill", i) for t, i in p["kills"]
               if i < len(tasks)] + [(t, "flush", 0) for t in p["flushes"]]
        evs.sort()
        dead = set()

        async def faults():
            last = 0
            for t, k, i in evs:
                if t > last:
                    await ctx.delay(t - last)
                    last = t
                if k == "flush":
                    self.do_flush()
                elif i not in self.finished and not tasks[i].done():
                    if i in self.waiting["get"]:
                        self.killed_getter = True
                    ctx.kill(tasks[i])
                    dead.add(i)
                    for w in self.waiting.values():
                        w.pop(i, None)
        ft = ctx.spawn(faults())
        horizon = 20 + sum(max(0, o[0]) for a in p["actors"]
                           for o in a["ops"])
        for _ in range(horizon):
            await ctx.quiesce(1)
            if len(self.finished) + len(dead) == len(tasks) and ft.done():
                break
        self.dead = dead
        q = self.content()
        ctx.nontrivial = bool(self.pm.seen) and bool(self.gm.seen)
        ctx.rec("end", list(self.pm.seen), list(self.gm.seen))
        self.judge(ctx, q, tasks)
        # the bench lets go of whoever is legitimately still blocked
        for t in tasks:
            if not t.done():
                t.kill()

    def judge(self, ctx, q, tasks):
        # order and exactly-once, from the FIFO's notifications
        ps, gs = self.pm.seen, self.gm.seen
        ctx.check(len(gs) <= len(ps) and gs == ps[:len(gs)], "fifo_order",
                  lambda: "put order %r, get order %r" % (ps, gs))
        ctx.eq(len(set(ps)), len(ps), "dup_put", "items accepted twice")
        # nothing a producer completed may be missing; nothing else appears
        ctx.check(set(self.put_done) <= set(ps), "put_lost",
                  lambda: "completed puts %r, accepted %r"
                  % (self.put_done, ps))
        extra = set(ps) - set(self.put_done)
        if not self.dead:
            ctx.eq(sorted(extra), [], "phantom", "items nobody put")
        # a consumer got exactly what left the FIFO
        taken = sorted(self.got + self.flushed)
        if not self.killed_getter and not self.dead:
            ctx.eq(taken, sorted(gs), "get_mismatch",
                   "items received vs. items removed")
        else:
            ctx.check(len(set(taken)) == len(taken) and set(taken) <= set(gs),
                      "get_mismatch", "received %r removed %r" % (taken, gs))
        # each consumer sees increasing positions
        for i, vs in self.by_actor.items():
            idx = [ps.index(v) for v in vs]
            ctx.check(idx == sorted(idx), "consumer_order",
                      "actor %d received %r" % (i, vs))
        # what is left comes out, in order, exactly once
        rest = []
        while True:
            out = []
            if not self.fifo.try_get(out):
                break
            rest += out
            if len(rest) > len(ps):
                break
        ctx.eq(rest, ps[len(gs) - len(rest):] if rest else [], "drain",
               "left-over content")
        ctx.eq(rest, q, "drain", "left-over content")


class FifoOrder(FifoScenario):
    name = "fifo_order"


class FifoStatus(FifoScenario):
    name = "fifo_status"
    check_status = True


class FifoProgress(FifoScenario):
    """No lost wakeup: when everything has settled, nobody is blocked on a
    condition that holds."""
    name = "fifo_progress"

    def judge(self, ctx, q, tasks):
        w = self.waiting
        if w["get"] or w["peek"]:
            ctx.check(not q, "stuck_consumer",
                      lambda: "get waiters %r peek waiters %r but the FIFO "
                      "holds %r" % (list(w["get"]), list(w["peek"]), q))
        if w["put"]:
            ctx.check(self.size and len(q) >= self.size, "stuck_producer",
                      lambda: "put waiters %r but only %d of %d used"
                      % (list(w["put"]), len(q), self.size))
        for i, t in enumerate(tasks):
            if not t.done() and i not in self.dead:
                ctx.check(any(i in x for x in w.values()), "stuck_actor",
                          "actor %d is blocked in no FIFO operation" % i)


class FifoFlush(FifoScenario):
    name = "fifo_flush"
    flushes = True
