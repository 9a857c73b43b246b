"""TLM2 sockets: blocking and non-blocking transport through any chain of
pass-through sockets."""
from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario
from cocotb.triggers import Timer
from uvm.tlm2.uvm_tlm2_sockets import *
from uvm.tlm2.uvm_tlm2_sockets import UVMTLMNbPassthroughInitiatorSocket
from uvm.tlm2.uvm_tlm2_ifs import uvm_tlm_sync_e
from uvm.tlm2.uvm_tlm2_time import UVMTLMTime
from uvm.tlm2.uvm_tlm2_generic_payload import UVMTLMGenericPayload

ACC = uvm_tlm_sync_e.UVM_TLM_ACCEPTED
DONE = uvm_tlm_sync_e.UVM_TLM_COMPLETED


class Imp2(UVMComponent):
    """Whatever implements the interfaces of a socket."""
    end = None

    async def b_transport(self, t, delay):
        await Cur.scn.on_b(self.end, t, delay)

    def nb_transport_fw(self, t, p, delay):
        return Cur.scn.on_fw(self.end, t, p, delay)

    def nb_transport_bw(self, t, p, delay):
        return Cur.scn.on_bw(self.end, t, p, delay)


class Sockets(UvmScenario):
    name = "tlm2"
    max_steps = 60000

    # -- plan ------------------------------------------------------------
    def gen(self, rng, tier):
        big = tier != "quick"
        pairs = []
        for _ in range(rng.randint(1, 4)):
            nb = rng.random() < 0.6
            bad = "none"
            if rng.random() < 0.12:
                bad = rng.choice(["kind", "backwards", "null", "open"])
            pairs.append({
                "nb": nb, "up": rng.choice([0, 0, 1, 2]),
                "down": rng.choice([0, 0, 1, 2]),
                "iimp": rng.choice([0, 0, 1]), "timp": rng.choice([0, 0, 1]),
                "bad": bad, "ntask": rng.choice([1, 1, 2, 3]),
                "ops": [[rng.choice([0, 0, 0, 1, 2, -1, -2]),
                         rng.choice(["go", "go", "go", "go", "null"]),
                         rng.choice([0, 0, 1, 3, -1])]
                        for _ in range(rng.randint(1, 14 if big else 6))],
                "lat": [rng.choice([0, 0, 1, 2, 4, -1])
                        for _ in range(rng.randint(1, 5))]})
        return {"pairs": pairs, "order": rng.randint(0, 999)}

    def valid(self, plan):
        return bool(plan["pairs"]) and all(
            p["lat"] and p["ntask"] > 0 for p in plan["pairs"])

    # -- bench -----------------------------------------------------------
    async def run(self, ctx, plan):
        Cur.scn = self
        Cur.ctx = ctx
        self.plan = plan
        self.stopped = False
        self.ran = False
        self.tx = {}                # payload name -> record
        self.nulls = 0
        self.over = False
        await run_test("SimTest")

    def on_exception(self, ctx, plan, e):
        if isinstance(e, UVMFinishError) and "BUILDERR" in str(
                ctx.messages[-1:]):
            self.stopped = True
            return None, None
        return super().on_exception(ctx, plan, e)

    def finish(self, ctx, plan):
        bad = [p["bad"] for p in plan["pairs"] if p["bad"] != "none"]
        for b in bad:
            ctx.fault("connect_" + b)
            ctx.nontrivial = True
        ctx.eq(self.stopped, bool(bad), "build_stop",
               "build stopped (illegal connections: %r)" % bad)
        ctx.eq(self.ran, not bad, "ran", "run phase executed")
        if not bad:
            ctx.eq(sev_count(UVM_ERROR), self.nulls, "errors",
                   "error messages")
            for n, r in self.tx.items():
                ctx.check(r["end"], "lost", "transaction %s never "
                          "completed" % n)

    def build(self, test):
        self.P = []
        for i, p in enumerate(self.plan["pairs"]):
            k = "Nb" if p["nb"] else "B"
            g = globals()
            r = {}
            par = test
            ups = []
            for j in range(p["up"]):
                par = UVMComponent("u%d_%d" % (i, j), par)
                ups.append(g["UVMTLM%sPassthroughInitiatorSocket" % k](
                    "sock", par))
            ini = Imp2("ini%d" % i, par)
            ini.end = ("own", i)
            imp = ini
            if p["iimp"] and p["nb"]:
                imp = Imp2("iimp%d" % i, par)
            imp.end = ("i", i)
            if p["nb"]:
                r["ini"] = UVMTLMNbInitiatorSocket("sock", ini, imp) \
                    if imp is not ini else UVMTLMNbInitiatorSocket(
                        "sock", ini)
            else:
                r["ini"] = UVMTLMBInitiatorSocket("sock", ini)
            par = test
            downs = []
            for j in range(p["down"]):
                par = UVMComponent("d%d_%d" % (i, j), par)
                downs.append(g["UVMTLM%sPassthroughTargetSocket" % k](
                    "sock", par))
            tgt = Imp2("tgt%d" % i, par)
            tgt.end = ("own", i)
            imp = tgt
            if p["timp"]:
                imp = Imp2("timp%d" % i, par)
            imp.end = ("t", i)
            c = g["UVMTLM%sTargetSocket" % k]
            r["tgt"] = c("sock", tgt, imp) if imp is not tgt else \
                c("sock", tgt)
            if p["bad"] == "kind":
                k = UVMTLMBTargetSocket if p["nb"] else UVMTLMNbTargetSocket
                r["bad"] = k("sock", Imp2("x%d" % i, test))
            r["chain"] = [r["ini"]] + ups[::-1] + downs + [r["tgt"]]
            self.P.append(r)

    def connect(self, test):
        import random as _r
        links = []
        for i, (p, r) in enumerate(zip(self.plan["pairs"], self.P)):
            ch = r["chain"]
            prs = list(zip(ch, ch[1:]))
            if p["bad"] == "open":
                prs.pop()
            elif p["bad"] == "null":
                prs[-1] = (prs[-1][0], None)
            elif p["bad"] == "backwards":
                prs[-1] = prs[-1][::-1]
            elif p["bad"] == "kind":
                prs[-1] = (prs[-1][0], r["bad"])
            links += prs
        _r.Random(self.plan["order"]).shuffle(links)
        for a, b in links:
            a.connect(b)

    async def main(self, test, phase):
        ctx = Cur.ctx
        self.ran = True
        ts = []
        for i, p in enumerate(self.plan["pairs"]):
            for k in range(p["ntask"]):
                ts.append(ctx.spawn(self.client(i, k)))
        ctx.spawn(self.watch(ctx))
        for t in ts:
            await t
        await ctx.delay(40)
        self.over = True

    async def watch(self, ctx):
        await ctx.half()
        while not self.over:
            await Timer(1, "NS")
            ctx.check(ctx.now < 3000000, "stuck", "transports do not end")

    def lat(self, i, n):
        l = self.plan["pairs"][i]["lat"]
        return l[n % len(l)]

    # -- initiator -------------------------------------------------------
    async def client(self, i, k):
        ctx = Cur.ctx
        p = self.plan["pairs"][i]
        sock = self.P[i]["ini"]
        for n, (d, how, ann) in enumerate(p["ops"][k::p["ntask"]]):
            await ctx.delay(d)
            name = "x%d_%d_%d" % (i, k, n)
            t = UVMTLMGenericPayload(name)
            dl = UVMTLMTime("d")
            if ann > 0:
                dl.incr(ann, 1, 1.0e-9)
            if how == "null":
                await self.null(i, sock, t)
                continue
            r = {"t": t, "dl": dl, "i": i, "n": n, "ev": [], "end": False,
                 "ann": ann}
            self.tx[name] = r
            ctx.nontrivial = True
            if not p["nb"]:
                await sock.b_transport(t, dl)
                ctx.eq([e[0] for e in r["ev"]], ["b", "b_end"], "routing",
                       "calls for %s" % name)
                ctx.check(abs(dl.get_abstime(1.0e-9) - max(ann, 0) - 1)
                          < 1e-6, "delay", "the target's timing annotation is lost")
                r["end"] = True
                ctx.cov("b")
            else:
                r["ph"] = "BEGIN_REQ"
                s = sock.nb_transport_fw(t, "BEGIN_REQ", dl)
                ctx.eq([e[0] for e in r["ev"]], ["fw:BEGIN_REQ"], "routing",
                       "calls for %s" % name)
                ctx.eq(s, r["ret"], "sync", "nb_transport_fw result")
                if s == DONE:
                    r["end"] = True
                    ctx.cov("early_completion")
            ctx.rec("tx", name)

    async def null(self, i, sock, t):
        ctx = Cur.ctx
        ctx.fault("null_delay")
        self.nulls += 1
        if self.plan["pairs"][i]["nb"]:
            ctx.eq(sock.nb_transport_fw(t, "BEGIN_REQ", None), DONE,
                   "null_delay", "nb_transport_fw without a delay")
        else:
            await sock.b_transport(t, None)

    # -- target ----------------------------------------------------------
    def look(self, end, want, t, dl):
        ctx = Cur.ctx
        ctx.check(t.get_name() in self.tx, "phantom", lambda:
                  "call for %s, which nobody sent" % t.get_name())
        r = self.tx[t.get_name()]
        ctx.check(r["t"] is t, "payload", "another payload object arrived")
        ctx.check(r["dl"] is dl, "payload", "another delay object arrived")
        ctx.eq(end, (want, r["i"]), "routing", "who was called for %s"
               % t.get_name())
        ctx.check(not r["end"], "after_end", "call for %s after its end"
                  % t.get_name())
        return r

    async def on_b(self, end, t, dl):
        r = self.look(end, "t", t, dl)
        r["ev"].append(["b"])
        await Cur.ctx.delay(self.lat(r["i"], r["n"]))
        dl.incr(1, 1, 1.0e-9)
        r["ev"].append(["b_end"])

    def on_fw(self, end, t, ph, dl):
        ctx = Cur.ctx
        r = self.look(end, "t", t, dl)
        ctx.eq(ph, r["ph"], "phase", "phase seen by the target of %s"
               % t.get_name())
        r["ev"].append(["fw:" + ph])
        ctx.cov("fw:" + ph)
        if ph == "BEGIN_REQ":
            if r["ann"] < 0:
                r["ret"] = DONE
            else:
                r["ret"] = ACC
                ctx.spawn(self.respond(r))
            return r["ret"]
        r["ret"] = DONE
        return DONE

    async def respond(self, r):
        ctx = Cur.ctx
        sock = self.P[r["i"]]["tgt"]
        for ph in ("END_REQ", "BEGIN_RESP"):
            await ctx.delay(self.lat(r["i"], r["n"]))
            n = len(r["ev"])
            r["ph"] = ph
            s = sock.nb_transport_bw(r["t"], ph, r["dl"])
            ctx.eq([e[0] for e in r["ev"][n:]], ["bw:" + ph], "routing",
                   "calls made by nb_transport_bw")
            ctx.eq(s, r["bret"], "sync", "nb_transport_bw result")

    def on_bw(self, end, t, ph, dl):
        ctx = Cur.ctx
        r = self.look(end, "i", t, dl)
        ctx.eq(ph, r["ph"], "phase", "phase seen by the initiator of %s"
               % t.get_name())
        r["ev"].append(["bw:" + ph])
        ctx.cov("bw:" + ph)
        r["bret"] = ACC
        if ph == "BEGIN_RESP":
            if r["ann"] == 3:
                r["bret"] = DONE
                r["end"] = True
            else:
                ctx.spawn(self.end_resp(r))
        return r["bret"]

    async def end_resp(self, r):
        ctx = Cur.ctx
        await ctx.delay(self.lat(r["i"], r["n"] + 1))
        r["ph"] = "END_RESP"
        s = self.P[r["i"]]["ini"].nb_transport_fw(r["t"], "END_RESP",
                                                  r["dl"])
        ctx.eq(s, DONE, "sync", "nb_transport_fw(END_RESP) result")
        ctx.eq([e[0] for e in r["ev"]], ["fw:BEGIN_REQ", "bw:END_REQ",
                                         "bw:BEGIN_RESP", "fw:END_RESP"],
               "phases", "history of %s" % r["t"].get_name())
        r["end"] = True
