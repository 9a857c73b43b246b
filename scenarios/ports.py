"""TLM ports, exports and implementations: broadcast, routing, binding rules,
and the request/response channel."""
from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario
import uvm as _uvm
from uvm.tlm1.uvm_tlm_req_rsp import UVMTLMReqRspChannel

CAPS = {
    "BlockingPut": "P", "NonBlockingPut": "p", "Put": "Pp",
    "BlockingGet": "G", "NonBlockingGet": "g", "Get": "Gg",
    "BlockingPeek": "K", "NonBlockingPeek": "k", "Peek": "Kk",
    "BlockingGetPeek": "GK", "NonBlockingGetPeek": "gk", "GetPeek": "GgKk",
    "BlockingTransport": "T", "NonBlockingTransport": "t", "Transport": "Tt",
    "BlockingMaster": "PGKm", "NonBlockingMaster": "pgkm",
    "Master": "PpGgKkm",
    "BlockingSlave": "PGKs", "NonBlockingSlave": "pgks",
    "Slave": "PpGgKks",
    "Analysis": "A",
}
CALLS = {"P": ["put"], "p": ["try_put", "can_put"], "G": ["get"],
         "g": ["try_get", "can_get"], "K": ["peek"],
         "k": ["try_peek", "can_peek"], "T": ["transport"],
         "t": ["nb_transport"], "A": ["write"], "m": [], "s": []}
ALL_TLM = [k for k in sorted(CAPS) if k != "Analysis"]


def cls(kind, typ):
    return getattr(_uvm, "UVM%s%s" % (kind, {"port": "Port", "exp": "Export",
                                             "imp": "Imp"}[typ]))


class PNode(UVMComponent):
    """Implements every TLM interface; each call is reported."""
    idx = None

    def _n(self, what, t=None):
        return Cur.scn.called(self.idx, what, t)

    async def put(self, t):
        self._n("put", t)
        await Cur.scn.latency(self.idx)
        Cur.scn.finished(t)

    def try_put(self, t):
        return self._n("try_put", t)

    def can_put(self):
        return self._n("can_put")

    async def get(self, arg):
        tok = self._n("get")
        await Cur.scn.latency(self.idx)
        arg.append(tok)

    def try_get(self, arg):
        tok = self._n("try_get")
        if tok is not None:
            arg.append(tok)
        return tok is not None

    def can_get(self):
        return self._n("can_get")

    async def peek(self, arg):
        tok = self._n("peek")
        await Cur.scn.latency(self.idx)
        arg.append(tok)

    def try_peek(self, arg):
        tok = self._n("try_peek")
        if tok is not None:
            arg.append(tok)
        return tok is not None

    def can_peek(self):
        return self._n("can_peek")

    async def transport(self, req, rsp):
        tok = self._n("transport", req)
        await Cur.scn.latency(self.idx)
        rsp.append((tok, req))

    def nb_transport(self, req, rsp):
        tok = self._n("nb_transport", req)
        rsp.append((tok, req))
        return tok[2] % 3 != 0

    def write(self, t):
        self._n("write", t)
        Cur.scn.forward(self.idx, t)


class PortScenario(UvmScenario):
    name = "ports"
    max_steps = 60000
    kinds = ALL_TLM

    # -- plan ------------------------------------------------------------
    def gen(self, rng, tier):
        big = tier != "quick"
        n = rng.randint(2, 7)
        par = [rng.choice([-1, -1] + list(range(i))) for i in range(n)]
        illegal = rng.random() < self.p_illegal
        ports = []
        imps = sorted(rng.sample(range(n), rng.randint(1, min(n, 4))))
        main = rng.choice(self.kinds)
        for _ in range(rng.randint(1, 5)):
            ports.append(self.gen_port(rng, n, "port", main, illegal))
        for _ in range(rng.randint(0, 4)):
            ports.append(self.gen_port(rng, n, "exp", main, illegal))
        for c in imps:
            p = self.gen_port(rng, n, "imp", main, illegal)
            p["comp"] = c
            ports.append(p)
        m = len(ports)
        conns = []
        for i in range(m - len(imps)):
            # mostly one provider each
            k = rng.choice(self.fan)
            for _ in range(k):
                conns.append([i, rng.randrange(i + 1, m)])
        if illegal:
            for _ in range(rng.randint(0, 2)):
                conns.append(rng.choice([
                    [rng.randrange(m), -1], [rng.randrange(m)] * 2,
                    [m - 1, rng.randrange(m)],
                    [rng.randrange(m), rng.randrange(m)]]))
            pl = {"par": par, "ports": ports, "conns": conns}
            while Model(pl).cyclic():
                conns.pop()
        rng.shuffle(conns)
        plan = {"par": par, "ports": ports, "conns": conns,
                "illegal": illegal,
                "lat": [rng.choice([0, 0, 1, 2, 5, -1, -2])
                        for _ in range(rng.randint(1, 6))],
                "fwd": [], "act": []}
        if not illegal:
            self.repair(plan)
        conns = plan["conns"]
        for i, p in enumerate(ports):
            if p["typ"] == "imp" or p["typ"] == "exp" and rng.random() < .7:
                continue
            for _ in range(rng.randint(0, 2)):
                ops = []
                calls = [c for ch in CAPS[p["kind"]] for c in CALLS[ch]]
                for _ in range(rng.randint(1, 10 if big else 5)):
                    ops.append([rng.choice([0, 0, 0, 1, 2, -1, -2]),
                                rng.choice(calls)])
                plan["act"].append([i, ops])
        for c in imps:
            if rng.random() < 0.4:
                plan["fwd"].append([c, rng.randrange(m)])
        return plan

    p_illegal = 0.2
    fan = [0, 1, 1, 1, 1, 2]

    def gen_port(self, rng, n, typ, main, illegal):
        kind = main
        r = rng.random()
        if typ == "port" and r < 0.5:
            sub = [k for k in self.kinds if set(CAPS[k]) <= set(CAPS[main])]
            kind = rng.choice(sub)
        elif typ == "imp" and r < 0.3:
            sup = [k for k in self.kinds if set(CAPS[k]) >= set(CAPS[main])]
            kind = rng.choice(sup)
        elif illegal and r < 0.75:
            kind = rng.choice(self.kinds)
        mn, mx = rng.choice([[1, 1], [0, 1], [0, -1], [1, -1], [1, 2],
                             [2, 3], [0, 0]] if illegal else
                            [[0, -1], [0, -1], [1, 1], [0, 1], [1, 3]])
        return {"comp": rng.randrange(-1, n), "typ": typ, "kind": kind,
                "min": mn, "max": mx, "sel": rng.choice([-1, -1, 0, 1, 2])}

    def repair(self, plan):
        """Drop or add what would be a violation."""
        m = Model(plan)
        plan["conns"] = [c for c in plan["conns"] if m.conn_error(c) is None]
        m = Model(plan)
        for i, p in enumerate(plan["ports"]):
            if p["typ"] == "imp":
                continue
            n = len(m.imps(i))
            p["min"] = min(p["min"], n)
            if p["max"] >= 0:
                p["max"] = max(p["max"], n)

    def valid(self, plan):
        n, m = len(plan["par"]), len(plan["ports"])
        if any(a >= i or a < -1 for i, a in enumerate(plan["par"])):
            return False
        comps = [p["comp"] for p in plan["ports"] if p["typ"] == "imp"]
        if len(set(comps)) != len(comps) or -1 in comps:
            return False
        if any(not -1 <= p["comp"] < n or p["kind"] not in CAPS or
               p["max"] < -1 or p["min"] < 0 or p["sel"] < -1 for p in plan["ports"]):
            return False
        last = -1
        for p in plan["ports"]:
            k = ["port", "exp", "imp"].index(p["typ"])
            if k < last:
                return False
            last = k
        for a, b in plan["conns"]:
            if not (0 <= a < m and -1 <= b < m):
                return False
        mod = Model(plan)
        if mod.cyclic():
            return False
        if not plan["illegal"] and mod.errors():
            return False
        return all(0 <= i < m and all(o[1] in [
            c for ch in CAPS[plan["ports"][i]["kind"]] for c in CALLS[ch]]
            for o in ops) for i, ops in plan["act"]) and \
            all(c in comps and 0 <= p < m for c, p in plan["fwd"])

    # -- bench -----------------------------------------------------------
    async def run(self, ctx, plan):
        Cur.scn = self
        Cur.ctx = ctx
        self.plan = plan
        self.model = Model(plan)
        self.log = {}               # token -> [(comp, call)]
        self.done = set()
        self.seen = []              # every call, in order
        self.ntok = 0
        self.ncalls = {}
        self.ran = False
        self.asked = 0              # queries that must have warned
        self.stopped = False
        await run_test("SimTest")

    def on_exception(self, ctx, plan, e):
        if isinstance(e, UVMFinishError) and "BUILDERR" in str(
                ctx.messages[-1:]):
            self.stopped = True
            return None, None
        return super().on_exception(ctx, plan, e)

    def finish(self, ctx, plan):
        errs = self.model.errors()
        ctx.check(not self.stopped or errs, "build_stop",
                  "the build was stopped with a fatal error but no binding "
                  "rule is violated")
        ctx.check(self.stopped or not errs, "violation_missed",
                  lambda: "violated binding rules went unnoticed: %r" % errs)
        if errs:
            ctx.cov("build_stopped")
        ctx.eq(self.ran, not errs, "ran", "run phase executed")
        ctx.eq(sev_count(UVM_ERROR), len(errs), "errors",
               "error messages (violations: %r)" % errs)
        ctx.eq(sev_count(UVM_WARNING), self.model.warnings() + self.asked,
               "warnings", "hierarchy and query warnings")
        for e in errs:
            ctx.fault(e[0])
        if errs:
            ctx.nontrivial = True

    def build(self, test):
        self.comps = {-1: test}
        for i, p in enumerate(self.plan["par"]):
            c = PNode("c%d" % i, self.comps[p])
            c.idx = i
            self.comps[i] = c
        self.ports = []
        for i, p in enumerate(self.plan["ports"]):
            k = cls(p["kind"], p["typ"])
            if p["typ"] == "imp" or p["kind"] == "Analysis" or \
                    (p["min"], p["max"]) == (1, 1):     # the defaults
                o = k("p%d" % i, self.comps[p["comp"]])
            else:
                o = k("p%d" % i, self.comps[p["comp"]], p["min"], p["max"])
            self.ports.append(o)

    def connect(self, test):
        for a, b in self.plan["conns"]:
            self.ports[a].connect(None if b < 0 else self.ports[b])

    async def main(self, test, phase):
        ctx = Cur.ctx
        self.ran = True
        for i, p in enumerate(self.ports):
            want = self.model.imps(i)
            ctx.eq(p.size(), len(want), "size", "connections of port %d" % i)
            got = [p.get_if(k) for k in range(p.size())]
            ctx.check(set(id(g) for g in got) ==
                      set(id(self.ports[w]) for w in want), "resolved",
                      lambda: "port %d resolves to %r instead of %r" % (
                          i, [g.get_full_name() for g in got], want))
            self.queries(ctx, i, p, want)
        ts = [ctx.spawn(self.actor(n, i, ops))
              for n, (i, ops) in enumerate(self.plan["act"])]
        for t in ts:
            await t
        for tok, l in self.log.items():
            cs = [c for c, _ in l]
            ctx.check(len(cs) == len(set(cs)), "twice",
                      lambda: "call %r ran more than once: %r" % (tok, l))

    def queries(self, ctx, i, p, want):
        """What a port says about itself and its connections."""
        q = self.plan["ports"][i]
        pos = ["port", "exp", "imp"].index(q["typ"])
        comp = p.get_comp()
        for o in (p, comp):
            ctx.eq([bool(o.is_port()), bool(o.is_export()),
                    bool(o.is_imp())], [k == pos for k in range(3)],
                   "port_kind", "port %d" % i)
            ctx.eq(o.get_name(), "p%d" % i, "port_name")
            ctx.check(o.get_parent() is self.comps[q["comp"]], "port_parent",
                      lambda: "port %d" % i)
            ctx.eq(o.get_full_name(), ".".join(
                [self.comps[q["comp"]].get_full_name(), "p%d" % i]),
                "port_name", "full name")
            for what, side in (("get_connected_to", 0),
                               ("get_provided_to", 1)):
                got = {}
                getattr(o, what)(got)
                exp = sorted(set(c[1 - side] for c in self.model.ok
                                 if c[side] == i))
                ctx.eq(sorted(got), sorted(
                    self.ports[k].get_full_name() for k in exp),
                    "connections", "%s of port %d" % (what, i))
                for k in exp:
                    g = got[self.ports[k].get_full_name()]
                    ctx.check(g is self.ports[k].get_comp() and
                              g.get_port() is self.ports[k], "connections",
                              lambda: "%s of port %d" % (what, i))
        if q["typ"] != "imp":
            mn, mx = q["min"], q["max"]
            if q["kind"] == "Analysis":
                mn, mx = 0, -1
            ctx.eq([p.min_size(), p.max_size(), bool(p.is_unbounded())],
                   [mn, mx, mx == -1], "limits", "port %d" % i)
        for k in (-1, len(want)):
            ctx.check(p.get_if(k) is None, "no_such_if", lambda:
                      "get_if(%d) of port %d with %d" % (k, i, len(want)))
            self.asked += 1
        if want:
            ctx.check(p.get_if() is p.get_if(0), "resolved", "get_if()")
            if 0 <= q["sel"] < len(want):
                p.set_if(q["sel"])
                ctx.cov("set_if")
            elif q["sel"] >= 0:
                p.set_if()

    # -- implementations -------------------------------------------------
    def called(self, idx, what, t):
        self.seen.append((idx, what))
        self.ncalls[idx] = self.ncalls.get(idx, 0) + 1
        n = self.ncalls[idx]
        if t is not None:
            self.log.setdefault(t, []).append((idx, what))
        if what.startswith("try_put"):
            return n % 3 != 0
        if what.startswith("can_"):
            return n % 2 == 0
        if what.startswith("try_") and n % 4 == 0:
            return None
        return ("res", idx, n)

    async def latency(self, idx):
        l = self.plan["lat"]
        await Cur.ctx.delay(l[(idx + self.ncalls[idx]) % len(l)])

    def finished(self, t):
        self.done.add(t)

    def forward(self, idx, t):
        for c, p in self.plan["fwd"]:
            if c == idx and len(t) < 4 and self.plan["ports"][p][
                    "kind"] == "Analysis":
                Cur.ctx.cov("forward")
                self.write(p, t + ((idx, p),))

    # -- callers ---------------------------------------------------------
    def target(self, i):
        want = self.model.imps(i)
        if not want:
            return None
        s = self.plan["ports"][i]["sel"]
        w = self.ports[i].get_if(s if 0 <= s < len(want) else 0)
        for k in want:
            if self.ports[k] is w:
                return self.plan["ports"][k]["comp"]
        Cur.ctx.fail("resolved", "get_if(0) of port %d" % i)

    def write(self, i, tok):
        ctx = Cur.ctx
        self.log.setdefault(tok, [])
        self.ports[i].write(tok)
        got = [c for c, _ in self.log[tok]]
        want = [self.plan["ports"][k]["comp"] for k in self.model.imps(i)]
        ctx.eq(sorted(got), sorted(want), "broadcast",
               "components that saw %r" % (tok,))
        if len(want) > 1:
            ctx.cov("broadcast")

    async def actor(self, n, i, ops):
        ctx = Cur.ctx
        port = self.ports[i]
        tgt = self.target(i)
        for k, (d, call) in enumerate(ops):
            await ctx.delay(d)
            tok = ("t", n, k)
            if self.plan["ports"][i]["kind"] == "Analysis":
                if self.plan["ports"][i]["typ"] != "imp":
                    self.write(i, tok)
                    ctx.nontrivial = True
                continue
            if tgt is None:
                continue
            ctx.rec(call, i, tok)
            ctx.cov(call)
            ctx.nontrivial = True
            if call in ("put", "try_put"):
                if call == "put":
                    await port.put(tok)
                    ctx.check(tok in self.done, "put_early",
                              "put() returned before the target's did")
                else:
                    r = port.try_put(tok)
                    ctx.eq(r, self.ncalls[tgt] % 3 != 0, "result", "try_put")
                ctx.eq(self.log.get(tok), [(tgt, call)], "routing",
                       "calls made by %s on port %d" % (call, i))
            elif call.startswith("can_"):
                m = len(self.seen)
                r = getattr(port, call)()
                ctx.eq(self.seen[m:], [(tgt, call)], "routing",
                       "calls made by %s on port %d" % (call, i))
                ctx.eq(r, self.ncalls[tgt] % 2 == 0, "result", call)
            elif call in ("transport", "nb_transport"):
                out = []
                if call == "transport":
                    await port.transport(tok, out)
                else:
                    r = port.nb_transport(tok, out)
                    ctx.eq(r, self.ncalls[tgt] % 3 != 0, "result", call)
                ctx.eq(self.log.get(tok), [(tgt, call)], "routing",
                       "calls made by %s on port %d" % (call, i))
                ctx.check(len(out) == 1 and out[0][1] == tok and
                          out[0][0][1] == tgt, "response",
                          lambda: "%s(%r) answered %r" % (call, tok, out))
            else:
                out = []
                m = len(self.seen)
                if call.startswith("try_"):
                    r = getattr(port, call)(out)
                    ctx.eq(r, bool(out), "result", call)
                    ctx.eq(self.seen[m:], [(tgt, call)], "routing",
                           "calls made by %s on port %d" % (call, i))
                else:
                    await getattr(port, call)(out)
                    ctx.eq(self.seen[m], (tgt, call), "routing",
                           "call made by %s on port %d" % (call, i))
                    ctx.check(len(out) == 1, "result", call)
                if out:
                    ctx.eq(out[0][1], tgt, "routing", "source of the item")
                    self.log.setdefault(out[0], []).append((tgt, call))


class Model(object):
    """What the wiring of a plan means."""

    def __init__(self, plan):
        self.plan = plan
        self.par = dict(enumerate(plan["par"]))
        self.par[-1] = -2
        self.ok = [c for c in plan["conns"] if self.conn_error(c) is None]

    def conn_error(self, c):
        a, b = c
        P = self.plan["ports"]
        if b < 0:
            return "connect_null"
        if a == b:
            return "connect_self"
        if not set(CAPS[P[a]["kind"]]) <= set(CAPS[P[b]["kind"]]):
            return "connect_incompatible"
        if P[a]["typ"] == "imp":
            return "connect_imp"
        if P[a]["typ"] == "exp" and P[b]["typ"] == "port":
            return "connect_export_to_port"
        return None

    def cyclic(self):
        def walk(i, path):
            if i in path:
                return True
            return any(walk(b, path + [i]) for a, b in self.ok if a == i)
        return any(walk(i, []) for i in range(len(self.plan["ports"])))

    def imps(self, i):
        if self.plan["ports"][i]["typ"] == "imp":
            return [i]
        res = []
        for a, b in self.ok:
            if a == i:
                for k in self.imps(b):
                    if k not in res:
                        res.append(k)
        return res

    def errors(self):
        e = [(self.conn_error(c), tuple(c)) for c in self.plan["conns"]
             if self.conn_error(c)]
        for i, p in enumerate(self.plan["ports"]):
            if p["typ"] == "imp":
                continue
            mn, mx = p["min"], p["max"]
            if p["kind"] == "Analysis":
                mn, mx = 0, -1
            n = len(self.imps(i))
            if n < mn:
                e.append(("too_few_bindings", i))
            if mx != -1 and n > mx:
                e.append(("too_many_bindings", i))
        return e

    def warnings(self):
        n = 0
        P = self.plan["ports"]
        for a, b in self.ok:
            s, d = P[a], P[b]
            if s["typ"] == "port" and s["kind"] == "Analysis":
                continue
            gs, gd = self.par[s["comp"]], self.par[d["comp"]]
            if s["typ"] == "port" and d["typ"] == "port":
                n += gs != d["comp"]
            elif s["typ"] == "port":
                n += gs != gd
            else:
                n += s["comp"] != gd
        return n


class Broadcast(PortScenario):
    name = "broadcast"
    kinds = ["Analysis"]
    p_illegal = 0.1
    fan = [0, 1, 2, 2, 3]


class Routing(PortScenario):
    name = "routing"


class Binding(PortScenario):
    name = "binding"
    kinds = ALL_TLM + ["Analysis"]
    p_illegal = 0.8


class Tap(UVMComponent):
    """Records what an analysis port broadcasts."""

    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.imp = UVMAnalysisImp("imp", self)
        self.got = []
        self.on = None

    def write(self, t):
        self.got.append(t)
        if self.on:
            self.on(t)


def alias(p, c, form, i):
    """One of the equivalent exports of a channel."""
    a = p.get("alias", 0) >> i
    w = [["", "blocking_", "nonblocking_"][a % 3]]
    if form.count("%s") == 2:
        w.append(["get_peek", "get", "peek"][(a >> 2) % 3])
    return getattr(c, form % tuple(w))


class ReqRsp(UvmScenario):
    """Request/response channel between masters and slaves."""
    name = "req_rsp"
    max_steps = 60000
    PORTS = {"mst": ["master", "split"], "slv": ["slave", "split"]}

    def gen(self, rng, tier):
        big = tier != "quick"
        nch = rng.choice([1, 1, 2])
        ch = []
        for _ in range(nch):
            n = rng.randint(1, 24 if big else 9)
            nm, ns = rng.choice([[1, 1], [1, 1], [2, 1], [1, 2], [2, 2]])

            def split(k):
                cut = sorted(rng.randint(0, n) for _ in range(k - 1))
                return [b - a for a, b in zip([0] + cut, cut + [n])]
            ch.append({
                "req": rng.choice([1, 1, 2, 3, 0]),
                "rsp": rng.choice([1, 1, 2, 3, 0]),
                "mst": rng.choice(self.PORTS["mst"]),
                "slv": rng.choice(self.PORTS["slv"]),
                "alias": rng.randrange(4096),
                "stall": [] if rng.random() < 0.6 else
                [rng.choice(["put", "get", "rget"]), rng.randint(0, 3),
                 rng.choice([9, 40])],
                "put": split(nm), "rget": split(nm),
                "get": split(ns),
                "how": [rng.choice(["block", "block", "try", "peek"])
                        for _ in range(rng.randint(1, 5))],
                "d": [rng.choice([0, 0, 0, 1, 2, 4, -1, -2])
                      for _ in range(rng.randint(1, 7))]})
        return {"ch": ch}

    def valid(self, plan):
        return bool(plan["ch"]) and all(
            c["how"] and c["d"] and len(c["stall"]) in (0, 3) and sum(c["put"]) == sum(c["rget"]) ==
            sum(c["get"]) and min(c["put"] + c["rget"] + c["get"]) >= 0
            and c["mst"] in self.PORTS["mst"]
            and c["slv"] in self.PORTS["slv"] for c in plan["ch"])

    def build(self, test):
        self.ch, self.io, self.taps = [], [], []
        for i, p in enumerate(self.plan["ch"]):
            if (p["req"], p["rsp"]) == (1, 1):     # the defaults
                c = UVMTLMReqRspChannel("ch%d" % i, test)
            else:
                c = UVMTLMReqRspChannel("ch%d" % i, test, p["req"], p["rsp"])
            self.ch.append(c)
            io = {}
            if p["mst"] == "master":
                io["put"] = io["rget"] = UVMMasterPort("m%d" % i, test)
            else:
                io["put"] = UVMPutPort("mp%d" % i, test)
                io["rget"] = UVMGetPeekPort("mg%d" % i, test)
            if p["slv"] == "slave":
                io["get"] = io["rput"] = UVMSlavePort("s%d" % i, test)
            else:
                io["rput"] = UVMPutPort("sp%d" % i, test)
                io["get"] = UVMGetPeekPort("sg%d" % i, test)
            self.io.append(io)
            self.taps.append((Tap("tq%d" % i, test), Tap("tr%d" % i, test)))

    def connect(self, test):
        for p, c, io, (tq, tr) in zip(self.plan["ch"], self.ch, self.io,
                                      self.taps):
            if p["mst"] == "master":
                io["put"].connect(alias(p, c, "%smaster_export", 1))
            else:
                io["put"].connect(alias(p, c, "%sput_request_export", 2))
                io["rget"].connect(alias(p, c, "%s%s_response_export", 3))
            if p["slv"] == "slave":
                io["get"].connect(alias(p, c, "%sslave_export", 4))
            else:
                io["rput"].connect(alias(p, c, "%sput_response_export", 5))
                io["get"].connect(alias(p, c, "%s%s_request_export", 6))
            c.request_ap.connect(tq.imp)
            c.response_ap.connect(tr.imp)

    async def main(self, test, phase):
        ctx = Cur.ctx
        self.left = {}
        self.got = {}
        self.over = False
        ts = []
        self.blocked = {}
        for i, p in enumerate(self.plan["ch"]):
            self.got[i, "req"], self.got[i, "rsp"] = [], []
            for k, n in enumerate(p["put"]):
                ts.append(ctx.spawn(self.putter(i, k, n)))
            for k, n in enumerate(p["get"]):
                ts.append(ctx.spawn(self.server(i, k, n)))
            for k, n in enumerate(p["rget"]):
                ts.append(ctx.spawn(self.collector(i, k, n)))
        ctx.spawn(self.observer(ctx))
        for t in ts:
            await t
        self.over = True

    async def d(self, i, n, who=None):
        p = self.plan["ch"][i]
        if p["stall"] and p["stall"][:2] == [who, n]:
            Cur.ctx.fault("stall_" + who)
            await Cur.ctx.delay(p["stall"][2])
        await Cur.ctx.delay(p["d"][n % len(p["d"])])

    async def put(self, i, kind, t, n):
        ctx = Cur.ctx
        port = self.io[i]["put" if kind == "req" else "rput"]
        tap = self.taps[i][0 if kind == "req" else 1]
        how = self.plan["ch"][i]["how"]
        if how[n % len(how)] == "try":
            k = 0
            while True:
                can = port.can_put()
                m = len(tap.got)
                ok = port.try_put(t)
                ctx.eq(ok, can, "try_put", "try_put after can_put")
                ctx.eq(len(tap.got), m + bool(ok), "announce", "try_put")
                if ok:
                    break
                ctx.cov("try_put_refused")
                await ctx.delay(1)
                k += 1
                ctx.check(k < 4000, "stuck", "try_put never succeeds")
        else:
            b = [kind, "put", i]
            self.blocked[id(b)] = b
            await port.put(t)
            del self.blocked[id(b)]
        ctx.check(t in tap.got, "announce", "put of %r not announced" % (t,))
        ctx.rec("put", i, t)

    async def get(self, i, kind, n):
        ctx = Cur.ctx
        port = self.io[i]["get" if kind == "req" else "rget"]
        tap = self.taps[i][0 if kind == "req" else 1]
        got = self.got[i, kind]
        how = self.plan["ch"][i]["how"]
        h = how[(n + 1) % len(how)]
        out = []
        single = len(self.plan["ch"][i][
            "get" if kind == "req" else "rget"]) == 1
        if h == "try":
            k = 0
            while True:
                can = port.can_get()
                ok = port.try_get(out)
                # can_get() says no while other getters are blocked
                if can or not any(b[:2] == [kind, "get"] and b[2] == i
                                  for b in self.blocked.values()):
                    ctx.eq(ok, can, "try_get", "try_get after can_get")
                if ok:
                    break
                await ctx.delay(1)
                k += 1
                ctx.check(k < 4000, "stuck", "try_get never succeeds")
        else:
            b = [kind, "get", i]
            self.blocked[id(b)] = b
            if h == "peek" and single:
                await port.peek(out)
                head = out.pop()
                await port.get(out)
                ctx.eq(out[0], head, "peek_get", "get after peek")
                ctx.cov("peek")
            else:
                await port.get(out)
            del self.blocked[id(b)]
        t = out[0]
        ctx.check(t not in got, "twice", "%r delivered twice" % (t,))
        ctx.check(t in tap.got, "unknown", "%r was not announced" % (t,))
        if single:
            ctx.eq(t, tap.got[len(got)], "order", "%s number %d"
                   % (kind, len(got)))
        got.append(t)
        ctx.rec("get", i, t)
        ctx.nontrivial = True
        return t

    async def putter(self, i, k, n):
        for j in range(n):
            await self.d(i, j, "put")
            await self.put(i, "req", ("q", i, k, j), j)

    async def server(self, i, k, n):
        for j in range(n):
            await self.d(i, j, "get")
            t = await self.get(i, "req", j)
            await self.d(i, j + 5)
            await self.put(i, "rsp", ("r",) + t[1:], j)

    async def collector(self, i, k, n):
        for j in range(n):
            await self.d(i, j, "rget")
            await self.get(i, "rsp", j)

    async def observer(self, ctx):
        await ctx.half()
        while not self.over:
            for kind, what, i in list(self.blocked.values()):
                held = len(self.taps[i][0 if kind == "req" else 1].got) - \
                    len(self.got[i, kind])
                size = self.plan["ch"][i][kind]
                if what == "get":
                    ctx.check(held <= 0, "stuck", lambda: "%s getter of "
                              "channel %d blocked with %d items in it"
                              % (kind, i, held))
                else:
                    ctx.check(size and held >= size, "stuck", lambda:
                              "%s putter of channel %d blocked with %d "
                              "items in it" % (kind, i, held))
                if size:
                    ctx.check(held <= size, "overfull", lambda: "%d items "
                              "in a channel of size %d" % (held, size))
            ctx.state(tuple(sorted(map(tuple, self.blocked.values()))))
            await Timer(1, "NS")
            ctx.check(ctx.now < 4000000, "stuck", "channel does not drain")

    def after(self, ctx, plan):
        for i, p in enumerate(plan["ch"]):
            n = sum(p["put"])
            tq, tr = self.taps[i]
            ctx.eq(len(tq.got), n, "announce", "requests announced")
            ctx.eq(len(tr.got), n, "announce", "responses announced")
            ctx.eq(sorted(self.got[i, "req"]), sorted(tq.got), "conserve",
                   "requests delivered")
            ctx.eq(sorted(self.got[i, "rsp"]), sorted(tr.got), "conserve",
                   "responses delivered")
        ctx.eq(sev_count(UVM_ERROR), 0, "errors", "error messages")


from cocotb.triggers import Timer       # noqa: E402
