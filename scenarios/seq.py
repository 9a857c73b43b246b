"""Sequences, sequencers and drivers: exactly-once delivery, arbitration,
responses and sequence life cycle, under random schedules."""
from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.seq.uvm_sequence import UVMSequence
from uvm.seq.uvm_sequence_item import UVMSequenceItem
from uvm.comps.uvm_driver import UVMDriver
from cocotb.triggers import Timer, Event


class Item(UVMSequenceItem):
    def __init__(self, name="item"):
        super().__init__(name)
        self.uid = None
        self.op = None

    def convert2string(self):
        return "item %s" % self.uid


class Rsp(UVMSequenceItem):
    def __init__(self, name="rsp"):
        super().__init__(name)
        self.uid = None


class Drv(UVMDriver):
    idx = 0

    async def run_phase(self, phase):
        await Cur.scn.drive(self)

    def extract_phase(self, phase):
        Cur.scn.extracted(self)


class Seq(UVMSequence):
    def __init__(self, name="seq"):
        super().__init__(name)
        self.node = None
        self.relevant = True
        self.rel_ev = Event("rel")

    def is_relevant(self):
        return 1 if self.relevant else 0

    async def wait_for_relevant(self):
        while not self.relevant:
            self.rel_ev.clear()
            await self.rel_ev.wait()

    async def pre_start(self):
        await Cur.scn.life(self, "pre_start")

    async def pre_body(self):
        await Cur.scn.life(self, "pre_body")

    async def body(self):
        await Cur.scn.life(self, "body")
        await Cur.scn.do_body(self)
        Cur.scn.lifelog[self].append("body_end")

    async def post_body(self):
        await Cur.scn.life(self, "post_body")

    async def post_start(self):
        await Cur.scn.life(self, "post_start")

    def pre_do(self, is_item):
        Cur.scn.lifelog[self].append("pre_do%d" % int(is_item))

        async def nothing():
            pass
        return None

    def mid_do(self, this_item):
        Cur.scn.lifelog[self].append(
            "mid_do" + ("" if isinstance(this_item, Item) else "_seq"))

    def post_do(self, this_item):
        Cur.scn.lifelog[self].append(
            "post_do" + ("" if isinstance(this_item, Item) else "_seq"))

    def response_handler(self, response):
        Cur.scn.handled(self, response)


class SeqScenario(UvmScenario):
    name = "seq"
    max_steps = 120000
    styles = ("gni", "gni", "get", "try", "peek")
    relevance = False
    random_arb = False
    responses = False
    auto = False
    needs_scratch = True

    # -- plan ------------------------------------------------------------
    def gen(self, rng, tier):
        nsqr = rng.choice([1, 1, 1, 2])
        big = tier != "quick"
        self.budget = 40 if big else 14
        drv = []
        for _ in range(nsqr):
            st = rng.choice(self.styles)
            drv.append({"style": st,
                        "d": [rng.choice([0, 0, 0, 1, 1, 2, 3, -1])
                              for _ in range(rng.randint(1, 4))],
                        "gap": [rng.choice([0, 0, 0, 1, 2, 4, -1, -2])
                                for _ in range(rng.randint(1, 4))],
                        "rsp": [self.gen_rsp(rng)
                                for _ in range(rng.randint(1, 5))],
                        "arb": "random" if self.random_arb and
                        rng.random() < 0.7 else "fifo"})
            drv[-1]["stall"] = [] if rng.random() < 0.7 else \
                [rng.randint(0, 4), rng.choice([7, 20, 100])]
        seqs = [self.gen_seq(rng, nsqr, 0) for _ in
                range(rng.randint(1, 5))]
        rel = []
        if self.relevance:
            for _ in range(rng.randint(1, 6)):
                rel.append([rng.randrange(len(seqs)),
                            rng.choice([0, 0, 1, 2, 3, 5]),
                            rng.choice([1, 2, 3, 6])])
        if self.responses:
            for n in seqs:
                if any(o[1] == "item" and o[2][1] >= 0 for o in n["ops"]):
                    n["again"] = 0
        return {"nsqr": nsqr, "drv": drv, "seqs": seqs, "rel": rel}

    def gen_rsp(self, rng):
        if not self.responses:
            return ["none", 0]
        return rng.choice([["none", 0], ["done", 0], ["done", 0],
                           ["port", rng.choice([0, 0, 1, 3])],
                           ["put", rng.choice([0, 0, 1, 3])]])

    def gen_watch(self, rng):
        return []

    def gen_seq(self, rng, nsqr, depth):
        ops = []
        for _ in range(rng.randint(1, 4)):
            self.budget -= 1
            if self.budget < 0 and ops:
                break
            r = rng.random()
            d = rng.choice([0, 0, 0, -1, -2, 1, 2, 3])
            if depth < 2 and r < 0.15:
                ops.append([d, "sub", self.gen_seq(rng, nsqr, depth + 1)])
            elif depth < 2 and r < 0.28:
                ops.append([d, "par", [self.gen_seq(rng, nsqr, depth + 1)
                                       for _ in range(rng.randint(1, 3))]])
            else:
                wait = "none"
                if self.responses:
                    wait = rng.choice(["none", "tid", "any", "any", "bg_tid",
                                       "bg_tid", "bg_any"])
                ops.append([d, "item",
                            [rng.choice([0, 0, 0, 0, -1]),
                             rng.randrange(nsqr) if rng.random() < 0.2
                             else -1, wait] + self.gen_watch(rng)])
        return {"sqr": rng.randrange(nsqr), "start": rng.choice(
                    [0, 0, 0, 1, 2, -1, 4]),
                "pp": rng.choice([0, 1]),
                "lag": rng.choice([0, 0, 0, 1]),
                "again": rng.choice([0, 0, 0, 1]),
                "handler": self.responses and rng.random() < 0.15,
                "depth": rng.choice([8, 8, 1, 2, -1]),
                "ops": ops}

    # -- bench -----------------------------------------------------------
    def build(self, test):
        self.sqr = []
        self.drv = []
        for i in range(self.plan["nsqr"]):
            s = UVMSequencer("sqr%d" % i, test)
            d = Drv("drv%d" % i, test)
            d.idx = i
            if self.plan["drv"][i]["arb"] == "random":
                s.set_arbitration(UVM_SEQ_ARB_RANDOM)
            self.sqr.append(s)
            self.drv.append(d)
        self.uid = 0
        self.pend = [[] for _ in self.sqr]      # requests, arrival order
        self.granted = [None for _ in self.sqr]
        self.items = {}             # uid -> record
        self.lifelog = {}
        self.rmodel = {}            # sequence -> response queue model
        self.epoch = {}
        self.tend = {}
        self.bg = {}                # sequence -> background getters
        self.waiters = {}           # sequence -> ids waited for (None: any)
        self.maybe_errors = 0
        self.idle = [None for _ in self.sqr]    # driver is waiting since
        self.relchg = {}
        self.nodes = []
        self.nwatch = {}
        self.alive = 0
        self.over = False
        self.want_errors = 0
        self.hlog = {}

    def connect(self, test):
        for s, d in zip(self.sqr, self.drv):
            d.seq_item_port.connect(s.seq_item_export)
            d.rsp_port.connect(s.rsp_export)

    async def main(self, test, phase):
        ctx = Cur.ctx
        plan = self.plan
        self.roots = []
        tasks = []
        for i, n in enumerate(plan["seqs"]):
            s = self.mk(n, "s%d" % i)
            self.roots.append(s)
        for i, (s, n) in enumerate(zip(self.roots, plan["seqs"])):
            tasks.append(ctx.spawn(self.run_root(s, n)))
        for who, t, dur in plan["rel"]:
            ctx.spawn(self.rel_window(self.roots[who], t, dur))
        ctx.spawn(self.observer(ctx))
        for t in tasks:
            await t
        await ctx.delay(12)             # trailing responses
        self.over = True

    def mk(self, n, name):
        s = Seq(name)
        s.node = n
        s.set_response_queue_depth(n["depth"])
        s.use_response_handler(1 if n["handler"] else 0)
        self.lifelog[s] = []
        self.rmodel[s] = []
        self.hlog[s] = []
        return s

    async def run_root(self, s, n):
        ctx = Cur.ctx
        await ctx.delay(n["start"])
        self.restart(s, n, False)
        await self.start(s, n, None)
        if n["again"]:
            ctx.cov("restart")
            self.lifelog[s] = []
            self.restart(s, n, True)
            await self.start(s, n, None)

    def restart(self, s, n, second):
        pass

    async def start(self, s, n, parent):
        self.alive += 1
        self.rmodel[s] = []
        self.epoch[s] = self.epoch.get(s, 0) + 1
        before = len(self.lifelog[parent]) if parent else 0
        await s.start(self.sqr[n["sqr"]], parent, -1, n["pp"])
        self.alive -= 1
        self.check_life(s, n)
        Cur.ctx.eq(s.get_sequence_state(), UVM_FINISHED, "seq_state",
                   "state after start() returned")
        del before

    async def life(self, s, what):
        self.lifelog[s].append(what)
        st = {"pre_start": UVM_PRE_START, "pre_body": UVM_PRE_BODY,
              "body": UVM_BODY, "post_body": UVM_POST_BODY,
              "post_start": UVM_POST_START}[what]
        Cur.ctx.eq(s.get_sequence_state(), st, "seq_state",
                   "state in %s" % what)
        self.in_life(s, what)
        if s.node["lag"] and what != "body":
            await Cur.ctx.delay(1)
        if what == "post_start":
            self.tend[s] = Cur.ctx.now

    def in_life(self, s, what):
        pass

    def check_life(self, s, n):
        got = [x for x in self.lifelog[s]
               if not x.startswith(("pre_do", "mid_do", "post_do"))]
        want = ["pre_start"] + (["pre_body"] if n["pp"] else []) + \
            ["body", "body_end"] + (["post_body"] if n["pp"] else []) + \
            ["post_start"]
        Cur.ctx.eq(got, want, "lifecycle", "callbacks of %s" % s.get_name())
        if any(o[1] == "par" for o in n["ops"]):
            return
        want = []
        for o in n["ops"]:
            if o[1] == "item":
                want += ["pre_do1", "mid_do", "post_do"]
            else:
                want += ["pre_do0", "mid_do_seq", "post_do_seq"]
        Cur.ctx.eq([x for x in self.lifelog[s] if x not in got], want,
                   "lifecycle", "do callbacks of %s" % s.get_name())

    async def do_body(self, s):
        ctx = Cur.ctx
        for k, (d, op, arg) in enumerate(s.node["ops"]):
            await ctx.delay(d)
            if op == "item":
                await self.do_item(s, arg)
            elif op == "sub":
                c = self.mk(arg, "%s_%d" % (s.get_name(), k))
                await ctx.delay(arg["start"])
                await self.start(c, arg, s)
                ctx.cov("nested")
            else:
                ts = []
                for j, a in enumerate(arg):
                    c = self.mk(a, "%s_%d_%d" % (s.get_name(), k, j))
                    ts.append(ctx.spawn(self.par_child(c, a, s)))
                for t in ts:
                    await t
                ctx.cov("parallel")
        for t in self.bg.pop(s, []):
            if not t.done():
                t.kill()
        self.waiters[s] = []

    async def par_child(self, c, a, s):
        await Cur.ctx.delay(a["start"])
        await self.start(c, a, s)

    async def do_item(self, s, arg):
        ctx = Cur.ctx
        mid, tgt, wait = arg[:3]
        watch = arg[3:]
        q = s.node["sqr"] if tgt < 0 else tgt
        it = Item("i%d" % self.uid)
        it.uid = self.uid
        self.uid += 1
        rec = {"it": it, "seq": s, "q": q, "t_req": ctx.now, "recv": None,
               "done": None, "gr": None, "sent": None, "fin": None,
               "ep": self.epoch[s]}
        self.items[it.uid] = rec
        self.pend[q].append(it.uid)
        ctx.rec("req", it.uid, q)
        if watch and tgt < 0:
            # ids are unique within a sequence, not among sequences
            k = self.nwatch.get(s, 500)
            self.nwatch[s] = k + 1
            it.set_transaction_id(k)
            ctx.spawn(self.watcher(s, rec, k, watch[0]))
        await s.start_item(it, -1, None if tgt < 0 else self.sqr[tgt])
        ctx.rec("grant", it.uid)
        rec["gr"] = ctx.now
        ctx.check(self.granted[q] is None, "grant_overlap",
                  lambda: "item %d granted while item %s is in progress"
                  % (it.uid, self.granted[q]))
        self.granted[q] = it.uid
        self.check_arb(q, it.uid)
        self.pend[q].remove(it.uid)
        if mid < 0 and self.plan["drv"][q]["style"] != "try":
            await ctx.delay(mid)
        rec["sent"] = ctx.now
        await s.finish_item(it)
        rec["fin"] = ctx.now
        ctx.rec("fin", it.uid)
        ctx.check(rec["done"] is not None, "fin_early",
                  "finish_item of item %d returned before item_done"
                  % it.uid)
        ctx.eq(ctx.now, rec["done"], "fin_late",
               "time finish_item of item %d returned" % it.uid)
        if wait != "none" and not s.node["handler"]:
            await self.take_response(s, rec, wait)

    async def watcher(self, s, rec, tid, d):
        """Another task waits for the completion of one given item."""
        ctx = Cur.ctx
        await ctx.delay(d)
        if rec["done"] is not None:
            return
        rec["watch"] = "on"
        await self.sqr[rec["q"]].wait_for_item_done(s, tid)
        ctx.eq(ctx.now, rec["done"], "watch", "time wait_for_item_done() of "
               "item %d returned, and the time it was done"
               % rec["it"].uid)
        rec["watch"] = "off"
        ctx.cov("wait_for_item_done")

    def check_arb(self, q, uid):
        pass

    def extracted(self, drv):
        pass

    # -- driver ----------------------------------------------------------
    def received(self, q, it, peek=False):
        ctx = Cur.ctx
        ctx.check(isinstance(it, Item) and it.uid in self.items,
                  "unknown_item", "driver got %r" % (it,))
        rec = self.items[it.uid]
        ctx.check(it is rec["it"], "other_object", "copy of item")
        ctx.check(rec["recv"] is None, "twice",
                  "item %d delivered twice" % it.uid)
        ctx.eq(rec["q"], q, "wrong_sequencer", "item %d" % it.uid)
        ctx.check(rec["sent"] is not None, "unsent",
                  "item %d delivered before it was sent" % it.uid)
        ctx.eq(self.granted[q], it.uid, "not_granted", "delivered item")
        for r in self.items.values():
            if r["seq"] is rec["seq"] and r["q"] == q and \
                    r["it"].uid < it.uid:
                ctx.check(r["recv"] is not None, "seq_order",
                          lambda: "item %d before item %d of the same "
                          "sequence" % (it.uid, r["it"].uid))
        rec["recv"] = ctx.now
        ctx.rec("recv", it.uid)
        ctx.nontrivial = True

    def mark_done(self, q, it):
        ctx = Cur.ctx
        self.items[it.uid]["done"] = ctx.now
        self.granted[q] = None
        ctx.rec("done", it.uid)

    async def drive(self, d):
        ctx = Cur.ctx
        q = d.idx
        p = self.plan["drv"][q]
        port = d.seq_item_port
        n = 0
        while True:
            await ctx.delay(p["gap"][n % len(p["gap"])])
            if p["stall"] and p["stall"][0] == n:
                ctx.fault("driver_stall")
                await ctx.delay(p["stall"][1])
            self.idle[q] = ctx.now
            out = []
            if p["style"] in ("gni", "peek"):
                if p["style"] == "peek":
                    await port.peek(out)
                    self.idle[q] = None
                    it = out[0]
                    await ctx.delay(p["d"][n % len(p["d"])])
                    out = []
                    # get() consumes what was peeked, and completes it
                    self.received(q, it)
                    self.mark_done(q, it)
                    await port.get(out)
                    ctx.check(out[0] is it, "peek_get",
                              "get() after peek() gave another item")
                    await self.respond(d, it, p, n, False)
                else:
                    it = await port.get_next_item(out)
                    self.idle[q] = None
                    ctx.check(it is out[0], "gni_value", "return value")
                    self.received(q, it)
                    await ctx.delay(p["d"][n % len(p["d"])])
                    await self.respond(d, it, p, n, True)
            elif p["style"] == "get":
                # get() completes the item at the moment it is taken
                self.getting = True
                await port.get(out)
                self.idle[q] = None
                it = out[0]
                rec = self.items[it.uid]
                if rec["recv"] is None:
                    self.received_get(q, it)
                await ctx.delay(p["d"][n % len(p["d"])])
                await self.respond(d, it, p, n, False)
            else:
                await port.try_next_item(out)
                self.idle[q] = None
                if not out:
                    ctx.cov("try_none")
                    await ctx.delay(max(1, abs(p["gap"][n % len(p["gap"])])))
                    n += 1
                    if n > 400:
                        return
                    continue
                it = out[0]
                self.received(q, it)
                await ctx.delay(p["d"][n % len(p["d"])])
                await self.respond(d, it, p, n, True)
            ctx.cov("style_" + p["style"])
            n += 1

    def received_get(self, q, it):
        self.received(q, it)
        self.mark_done(q, it)

    async def respond(self, d, it, p, n, done):
        kind, lag = p["rsp"][n % len(p["rsp"])]
        q = d.idx
        rsp = None
        if kind != "none":
            rsp = Rsp("r%d" % it.uid)
            rsp.uid = it.uid
            rsp.set_id_info(it)
        if kind == "done" and not done:
            kind = "put"
        if done:
            self.mark_done(q, it)
            if kind == "done":
                self.sending(it, rsp)
            d.seq_item_port.item_done(rsp if kind == "done" else None)
        if kind in ("port", "put"):
            if lag:
                Cur.ctx.spawn(self.late(d, it, rsp, kind, lag))
            else:
                await self.send(d, it, rsp, kind)

    async def late(self, d, it, rsp, kind, lag):
        await Cur.ctx.delay(lag)
        await self.send(d, it, rsp, kind)

    async def send(self, d, it, rsp, kind):
        self.sending(it, rsp)
        Cur.ctx.cov("rsp_" + kind)
        if kind == "port":
            d.rsp_port.write(rsp)
        else:
            await d.seq_item_port.put(rsp)

    # -- responses -------------------------------------------------------
    def sending(self, it, rsp):
        """Model of the routing of one response."""
        s = self.items[it.uid]["seq"]
        ctx = Cur.ctx
        ctx.rec("rsp", it.uid)
        # who is registered on the sequencer under that id?
        if s.get_sequence_state() == UVM_FINISHED or \
                self.items[it.uid]["ep"] != self.epoch[s]:
            # it has left: nobody sees the response any more
            ctx.cov("rsp_after_end")
            ctx.fault("response_after_end")
            if s.node["handler"]:
                self.hlog[s].append(["maybe", it.uid])
            else:
                self.maybe_errors += 1
            return
        if s.node["handler"]:
            self.hlog[s].append(["sent", it.uid])
            return
        depth = s.node["depth"]
        if depth == -1 or len(self.rmodel[s]) < depth:
            self.rmodel[s].append(it.uid)
        else:
            self.want_errors += 1
            ctx.cov("rsp_overflow")
            ctx.fault("response_overflow")

    def handled(self, s, rsp):
        last = self.hlog[s][-1] if self.hlog[s] else [None, None]
        Cur.ctx.check(last[0] in ("sent", "maybe") and last[1] == rsp.uid,
                      "handler", lambda: "response_handler got %s, sent %r"
                      % (rsp.uid, self.hlog[s][-2:]))
        last[0] = "got"
        Cur.ctx.cov("rsp_handler")

    async def take_response(self, s, rec, wait):
        pass

    async def rel_window(self, s, t, dur):
        ctx = Cur.ctx
        await ctx.delay(t)
        s.relevant = False
        self.relchg[s] = ctx.now
        ctx.fault("irrelevant")
        ctx.rec("irrel", s.get_name())
        await ctx.delay(dur)
        s.relevant = True
        self.relchg[s] = ctx.now
        s.rel_ev.set()
        ctx.rec("rel", s.get_name())

    # -- progress --------------------------------------------------------
    async def observer(self, ctx):
        await ctx.half()
        while not self.over:
            self.settled(ctx)
            await Timer(1, "NS")
            ctx.check(ctx.now < 3000000, "stuck",
                      lambda: "sequences do not end: pending %r granted %r"
                      % (self.pend, self.granted))

    def settled(self, ctx):
        for q in range(len(self.sqr)):
            if self.idle[q] is not None and \
                    self.plan["drv"][q]["style"] != "try":
                if self.granted[q] is not None:
                    u = self.granted[q]
                    ctx.fail("idle_driver", "driver waits at %d while item "
                             "%d was granted" % (ctx.now, u))
                for u in self.pend[q]:
                    ctx.check(not self.items[u]["seq"].relevant,
                              "idle_driver", lambda: "driver waits at %d "
                              "while item %d is requested" % (ctx.now, u))
        for u, r in self.items.items():
            if r["done"] is not None and r["fin"] is None:
                ctx.fail("fin_late", "finish_item of item %d still blocked "
                         "at %d, item_done was at %d" % (u, ctx.now,
                                                         r["done"]))
        ctx.state(tuple(len(p) for p in self.pend), tuple(
            g is not None for g in self.granted), self.alive)

    def after(self, ctx, plan):
        for u, r in self.items.items():
            ctx.check(r["fin"] is not None, "lost", "item %d never finished"
                      % u)
        self.extra_checks(ctx)
        n = sev_count(UVM_ERROR)
        ctx.check(self.want_errors <= n <= self.want_errors +
                  self.maybe_errors, "errors",
                  lambda: "%d error messages, %d expected"
                  % (n, self.want_errors))
        ctx.eq(sev_count(UVM_WARNING), 0, "warnings", "warning messages")

    def extra_checks(self, ctx):
        pass

    def valid(self, plan):
        def ok(n):
            if self.responses and n["again"] and any(
                    o[1] == "item" and o[2][1] >= 0 for o in n["ops"]):
                return False
            for d, op, arg in n["ops"]:
                if op == "sub" and not ok(arg):
                    return False
                if op == "par" and not all(ok(a) for a in arg):
                    return False
                if op == "item" and len(arg) not in (3, 4):
                    return False
            return True
        return all(ok(n) for n in plan["seqs"]) and all(
            p["d"] and p["gap"] and p["rsp"] and len(p["stall"]) in (0, 2)
            and all(
                len(r) == 2 for r in p["rsp"])
            for p in plan["drv"]) and len(plan["drv"]) == plan["nsqr"] and \
            all(r[0] < len(plan["seqs"]) for r in plan["rel"])


class SeqOnce(SeqScenario):
    name = "seq_once"

    def gen_watch(self, rng):
        return [rng.choice([0, 0, -1, 1, 2])] if rng.random() < 0.3 else []


class SeqArb(SeqScenario):
    """FIFO arbitration and relevance."""
    name = "seq_arb"
    relevance = True
    random_arb = True

    def check_arb(self, q, uid):
        ctx = Cur.ctx
        s = self.items[uid]["seq"]
        if not s.relevant:
            ctx.eq(self.relchg.get(s), ctx.now, "irrelevant",
                   "item %d of an irrelevant sequence was granted" % uid)
        if self.plan["drv"][q]["arb"] == "random":
            ctx.cov("random")
            return
        for u in self.pend[q]:
            if u == uid:
                return
            o = self.items[u]["seq"]
            ctx.check(not o.relevant or self.relchg.get(o) == ctx.now,
                      "arb_order", lambda: "item %d granted before item %d, "
                      "which was requested earlier" % (uid, u))


class SeqRsp(SeqScenario):
    """Responses reach the sequence that sent the request."""
    name = "seq_rsp"
    responses = True

    async def take_response(self, s, rec, wait):
        ctx = Cur.ctx
        uid = rec["it"].uid
        out = []
        if wait.startswith("bg_"):
            self.bg.setdefault(s, []).append(
                ctx.spawn(self.getter(s, rec, wait[3:], out)))
            return
        # the driver may never answer: give up after a while
        t = ctx.spawn(self.getter(s, rec, wait, out))
        await ctx.delay(5)
        if not t.done():
            t.kill()
            self.waiters[s].remove(uid if wait == "tid" else None)
            ctx.fault("get_response_abandoned")

    async def getter(self, s, rec, wait, out):
        ctx = Cur.ctx
        uid = rec["it"].uid
        me = uid if wait == "tid" else None
        self.waiters.setdefault(s, []).append(me)
        if wait == "tid":
            await s.get_response(out, rec["it"].get_transaction_id())
            got = out[0].uid
            ctx.eq(got, uid, "wrong_response", "get_response(id)")
            ctx.check(got in self.rmodel[s], "wrong_response",
                      "response %d was not in the queue" % got)
            self.rmodel[s].remove(got)
            ctx.cov("get_tid")
        else:
            await s.get_response(out)
            got = out[0].uid
            ctx.check(self.rmodel[s] and self.rmodel[s][0] == got,
                      "wrong_response", lambda: "get_response() gave %d, "
                      "queue was %r" % (got, self.rmodel[s]))
            self.rmodel[s].pop(0)
            ctx.cov("get_any")
        self.waiters[s].remove(me)
        ctx.check(self.items[got]["seq"] is s, "misrouted",
                  "response %d went to another sequence" % got)
        ctx.rec("got_rsp", got)

    def settled(self, ctx):
        super().settled(ctx)
        for s, w in self.waiters.items():
            for u in w:
                ctx.check(not self.rmodel[s] if u is None else
                          u not in self.rmodel[s], "response_stuck",
                          lambda: "get_response(%s) of %s still blocked at "
                          "%d, queue is %r" % (u, s.get_name(), ctx.now,
                                               self.rmodel[s]))

    def extra_checks(self, ctx):
        for s, l in self.hlog.items():
            ctx.check(all(x[0] != "sent" for x in l), "handler",
                      lambda: "responses never handled: %r" % l)


class SeqLife(SeqScenario):
    """Automatic phase objections: the phase lasts until the last sequence
    that objects has ended, and not longer."""
    name = "seq_life"

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        for n in plan["seqs"]:
            n["again"] = rng.choice([0, 0, 1])
            n["auto"] = 1
            self.gen_auto(rng, n)
        plan["hold"] = rng.randint(0, 8)
        plan["ends"] = 0
        return plan

    def gen_auto(self, rng, n):
        for o in n["ops"]:
            for c in ([o[2]] if o[1] == "sub" else
                      o[2] if o[1] == "par" else []):
                c["auto"] = rng.choice([0, 0, 1])
                self.gen_auto(rng, c)

    def valid(self, plan):
        return super().valid(plan) and all(n["auto"] for n in plan["seqs"])

    def mk(self, n, name):
        s = super().mk(n, name)
        if n["auto"]:
            s.set_automatic_phase_objection(1)
        s.set_starting_phase(self.phase)
        self.every.append(s)
        return s

    async def main(self, test, phase):
        ctx = Cur.ctx
        plan = self.plan
        self.phase = phase
        self.every = []
        self.between = set()
        self.hold = max([plan["hold"]] + [n["start"] + 1
                                          for n in plan["seqs"]])
        self.t0 = ctx.now
        self.extr = []
        for i, n in enumerate(plan["seqs"]):
            ctx.spawn(self.run_root(self.mk(n, "s%d" % i), n))
        ctx.spawn(self.observer(ctx))
        await Timer(self.hold, "NS")

    def restart(self, s, n, second):
        """Somebody else holds the phase until the second run begins."""
        if not second and n["again"]:
            self.phase.raise_objection(self.sqr[0], "restart", 1)
        elif second:
            self.tend.pop(s)
            self.between.add(s)
            Cur.ctx.eq(bool(s.get_automatic_phase_objection()), True,
                       "auto_objection", "automatic objection after a run")
            s.set_starting_phase(self.phase)

    def in_life(self, s, what):
        ctx = Cur.ctx
        if s in self.between:
            self.between.remove(s)
            self.phase.drop_objection(self.sqr[0], "restart", 1)
        ctx.eq(self.phase.get_objection().get_objection_count(s),
               1 if s.node["auto"] else 0, "auto_objection",
               "objections of %s in %s" % (s.get_name(), what))
        ctx.eq(s.get_starting_phase() is self.phase, True, "starting_phase",
               "starting phase in %s" % what)

    def extracted(self, drv):
        ctx = Cur.ctx
        self.over = True
        want = self.t0 + self.hold * 1000
        for s in self.every:
            if s.node["auto"]:
                ctx.check(s not in self.between and s in self.tend, "phase_early",
                          lambda: "phase ended at %d before %s did"
                          % (ctx.now, s.get_name()))
                want = max(want, self.tend[s])
        ctx.eq(ctx.now, want, "phase_end", "time the phase ended")
        self.extr.append(drv.idx)
        if want > self.t0 + self.hold * 1000:
            ctx.cov("sequence_held_phase")

    def after(self, ctx, plan):
        super().after(ctx, plan)
        ctx.eq(len(self.extr), len(self.drv), "extract", "extract phases")
