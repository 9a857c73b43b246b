"""Callbacks: registration, ordering, enabling and traversal while other
processes change what is registered."""
from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario
from uvm.base.uvm_callback import (UVMCallback, UVMCallbackIter,
                                   UVMCallbacks, UVMCallbacksBase)
from uvm.base.uvm_misc import UVM_APPEND, UVM_PREPEND
from uvm.macros.uvm_callback_defines import (
    uvm_do_callbacks, uvm_do_callbacks_async, uvm_do_callbacks_exit_on,
    uvm_do_obj_callbacks, uvm_do_obj_callbacks_async,
    uvm_do_obj_callbacks_exit_on, uvm_register_cb)


class Base(UVMCallback):
    k = None

    def hit(self, trip, *a):
        Cur.scn.ran(self, trip)

    async def ahit(self, trip, *a):
        await Cur.scn.aran(self, trip)

    def vote(self, trip, *a):
        return Cur.scn.voted(self, trip)


class Left(Base):
    pass


class Right(Base):
    pass


class LeftLeft(Left):
    pass


TYPES = [Base, Left, Right, LeftLeft]


class Boom(Exception):
    pass


class Host(UVMComponent):
    async def work(self, CB, how, *args):
        if how == "sync":
            uvm_do_callbacks(self, CB, "hit", *args)
        elif how == "async":
            await uvm_do_callbacks_async(self, CB, "ahit", *args)
        else:
            return uvm_do_callbacks_exit_on(self, CB, "vote", 1, *args)


class Thing(UVMObject):
    pass


uvm_register_cb(Host, Base)
uvm_register_cb(Host, Left)
uvm_register_cb(Thing, Base)


class Callbacks(UvmScenario):
    name = "callbacks"
    max_steps = 60000

    def gen(self, rng, tier):
        n, m = rng.randint(1, 4), rng.randint(1, 7)
        big = tier != "quick"
        plan = {"hosts": n, "comp": [rng.random() < 0.7 for _ in range(n)],
                "cbs": [rng.randrange(4) for _ in range(m)],
                "lat": [rng.choice([0, 0, 1, 2, -1]) for _ in range(5)],
                "trace": rng.random() < 0.3,
                "boom": [[rng.randrange(m), rng.randint(1, 6)]]
                if rng.random() < 0.25 else [],
                "pre": rng.random() < 0.6, "clients": []}
        for _ in range(rng.randint(1, 4)):
            ops = []
            for _ in range(rng.randint(2, 40 if big else 16)):
                k = rng.random()
                cb = rng.randrange(m)
                if k < 0.35:
                    op = ["add", cb, rng.choice([-1, -1] + list(range(n))),
                          plan["pre"] and rng.random() < 0.4]
                elif k < 0.5:
                    op = ["mode", cb, rng.randint(0, 1)]
                elif k < 0.9:
                    op = ["do", rng.randrange(n), rng.randrange(4),
                          rng.choice(["sync", "async", "async", "vote"]),
                          rng.randrange(1 << m)]
                else:
                    op = ["iter", rng.randrange(n), rng.randrange(-1, 4),
                          [rng.choice("flnnnp") for _ in range(8)]]
                ops.append([rng.choice([0, 0, 1, 2, -1])] + op)
            plan["clients"].append(ops)
        return plan

    def valid(self, plan):
        n, m = plan["hosts"], len(plan["cbs"])
        return (n > 0 and len(plan["comp"]) == n and bool(plan["lat"])
                and all(0 <= t < 4 for t in plan["cbs"])
                and all(b[0] < m for b in plan["boom"])
                and all(o[2] < (n if o[1] in ("do", "iter") else m)
                        for c in plan["clients"] for o in c)
                and all(o[1] != "add" or -1 <= o[3] < n
                        for c in plan["clients"] for o in c)
                and all(o[1] not in ("do", "iter") or -1 <= o[3] < 4
                        for c in plan["clients"] for o in c)
                and all(o[1] != "do" or o[3] >= 0
                        for c in plan["clients"] for o in c))

    def build(self, test):
        self.hosts = []
        for i, c in enumerate(self.plan["comp"]):
            self.hosts.append(Host("h%d" % i, test) if c
                              else Thing("h%d" % i))
        self.cbs = []
        for i, t in enumerate(self.plan["cbs"]):
            c = TYPES[t]("cb%d" % i)
            c.k = i
            self.cbs.append(c)
        self.tw = []                    # callbacks of every object
        self.own = {}                   # object -> its own list
        self.on = [True] * len(self.cbs)
        self.trips = []
        self.calls = {}
        self.nlat = 0

    async def main(self, test, phase):
        ctx = Cur.ctx
        ts = [ctx.spawn(self.client(c)) for c in self.plan["clients"]]
        for t in ts:
            await t

    async def client(self, ops):
        for op in ops:
            await Cur.ctx.delay(op[0])
            UVMCallbacksBase.m_tracing = self.plan["trace"]
            await self.do(op[1:])

    def q(self, h):
        return self.own.get(h, self.tw)

    async def do(self, op):
        ctx = Cur.ctx
        ctx.nontrivial = True
        k = op[0]
        if k == "add":
            self.add(*op[1:])
        elif k == "mode":
            was = self.cbs[op[1]].callback_mode(op[2])
            ctx.eq(bool(was), self.on[op[1]], "mode",
                   "previous mode of callback %d" % op[1])
            self.on[op[1]] = bool(op[2])
            for t in self.trips:
                t["changed"].add(op[1])
        elif k == "do":
            await self.trip(*op[1:])
        else:
            self.walk(*op[1:])

    def add(self, k, h, first):
        dup = k in (self.tw if h < 0 else self.own.get(h, self.tw))
        w = sev_count(UVM_WARNING)
        UVMCallbacks.add(None if h < 0 else self.hosts[h], self.cbs[k],
                         UVM_PREPEND if first else UVM_APPEND)
        Cur.ctx.eq(sev_count(UVM_WARNING) - w, 1 if dup else 0, "add",
                   "warnings about adding callback %d to %d" % (k, h))
        if h >= 0 and h not in self.own:
            self.own[h] = list(self.tw)
        if dup:
            Cur.ctx.cov("dup")
            return
        for q in ([self.tw] + list(self.own.values()) if h < 0
                  else [self.own[h]]):
            if k not in q:
                if first:
                    q.insert(0, k)
                else:
                    q.append(k)
        for t in self.trips:
            t["changed"].add(k)
            if first:
                t["shifted"] = True

    # -- traversals ------------------------------------------------------
    def pick(self, h, ty):
        T = TYPES[ty] if ty >= 0 else UVMCallback
        return [k for k in self.q(h) if isinstance(self.cbs[k], T)]

    async def trip(self, h, ty, how, votes):
        ctx = Cur.ctx
        t = {"h": h, "ty": ty, "ran": [], "changed": set(), "how": how,
             "shifted": False, "votes": votes,
             "want": [k for k in self.pick(h, ty) if self.on[k]]}
        self.trips.append(t)
        host = self.hosts[h]
        r = err = None
        try:
            if isinstance(host, Host):
                r = await host.work(TYPES[ty], how, t, "x")
            elif how == "sync":
                uvm_do_obj_callbacks(host, TYPES[ty], "hit", t, "x")
            elif how == "async":
                await uvm_do_obj_callbacks_async(host, TYPES[ty], "ahit", t)
            else:
                r = uvm_do_obj_callbacks_exit_on(host, TYPES[ty], "vote", 1,
                                                 t)
        except Boom as e:
            err = e
        self.trips = [x for x in self.trips if x is not t]
        what = "%s callbacks (type %d) of object %d" % (how, ty, h)
        ran = t["ran"]
        if err is None and not t["shifted"]:
            ctx.eq(len(set(ran)), len(ran), "once",
                   "number of different %s that ran: %r" % (what, ran))
        ch = t["changed"]
        sure = [k for k in t["want"] if k not in ch]
        if err is not None or how == "vote" and any(
                votes >> k & 1 for k in ran):
            if not t["shifted"]:
                kept = [k for k in ran if k not in ch]
                ctx.eq(kept, sure[:len(kept)], "order",
                       what + " up to the one that ended it")
            if how == "vote" and err is None:
                ctx.check(not any(votes >> k & 1 for k in ran[:-1]),
                          "exit_on", lambda: what + " went on: %r" % ran)
                ctx.cov("exit_on")
        elif not t["shifted"]:
            ctx.eq([k for k in ran if k not in ch], sure, "order", what)
        else:
            ctx.eq(sorted(set(sure) - set(ran)), [], "missed", what)
        allowed = set(t["want"]) | ch
        ctx.check(set(ran) <= allowed, "extra", lambda:
                  "%s: ran %r, allowed %r" % (what, ran, allowed))
        if how == "vote" and err is None:
            ctx.eq(r, 1 if any(votes >> k & 1 for k in ran) else 0,
                   "exit_on", "result of " + what)
        ctx.cov("%s%d%s" % (how, min(len(ran), 3),
                            "c" if ch else ""))
        ctx.state(how, tuple(ran))

    def ran(self, cb, t):
        t["ran"].append(cb.k)
        n = self.calls[cb.k] = self.calls.get(cb.k, 0) + 1
        Cur.ctx.eq(self.on[cb.k], True, "disabled",
                   "callback %d is enabled when it runs" % cb.k)
        Cur.ctx.check(isinstance(cb, TYPES[t["ty"]]), "type", lambda:
                      "callback %d ran as type %d" % (cb.k, t["ty"]))
        Cur.ctx.rec("ran", cb.k, t["h"])
        if [cb.k, n] in self.plan["boom"]:
            Cur.ctx.fault("callback_raises")
            raise Boom()

    async def aran(self, cb, t):
        self.ran(cb, t)
        self.nlat += 1
        await Cur.ctx.delay(self.plan["lat"][self.nlat %
                                             len(self.plan["lat"])])

    def voted(self, cb, t):
        self.ran(cb, t)
        return t["votes"] >> cb.k & 1

    def walk(self, h, ty, moves):
        """An iterator over a set nobody changes meanwhile."""
        ctx = Cur.ctx
        want = [k for k in self.pick(h, ty) if self.on[k]]
        it = UVMCallbackIter(self.hosts[h], TYPES[ty] if ty >= 0 else None)
        at = None
        for m in moves:
            if m in "np" and at is None:
                continue
            if m == "f":
                cb, at = it.first(), 0
            elif m == "l":
                cb, at = it.last(), len(want) - 1
            elif m == "n":
                cb, at = it.next(), at + 1
            else:
                cb, at = it.prev(), at - 1
            exp = want[at] if 0 <= at < len(want) else None
            ctx.eq(cb.k if cb is not None else None, exp, "iter",
                   "callback at %s of object %d type %d (%r)" % (
                       m, h, ty, want))
            ctx.check(it.get_cb() is cb, "iter", lambda: "get_cb()")
            if exp is None:
                at = None               # where it now is, is unspecified
        ctx.cov("walk")
