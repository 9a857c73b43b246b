"""Hooks and callbacks around register accesses: every hook of the register
and of its fields runs once per access, in order, before or after the bus
transfers; their changes and vetoes take effect; nothing else of the register
happens meanwhile."""
from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario
from uvm.reg.uvm_reg_model import *
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_cbs import UVMRegCbs
from uvm.reg.uvm_reg_item import UVMRegItem
from uvm.reg.uvm_reg_sequence import UVMRegFrontdoor
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.base.uvm_callback import UVMCallbacks
from cocotb.triggers import Timer
from scenarios.regs import BusDrv, BusItem, Client, Reverse
from scenarios.mems import OpTag, TagAdapter

HOOKS = ("pre_write", "post_write", "pre_read", "post_read")
MAPS = ("none", "local", "root", "foreign")


def hooks(cls, place):
    def make(what):
        async def f(self, rw):
            await Cur.scn.hook(place(self), what, rw)
        return f
    for w in HOOKS:
        setattr(cls, w, make(w))
    return cls


class HReg(UVMReg):
    pass


class HField(UVMRegField):
    pass


class HCb(UVMRegCbs):
    def post_predict(self, fld, previous, value, kind, path, _map):
        Cur.scn.predicted(self.place, fld, previous, value, kind)


for _c in (HReg, HField, HCb):
    hooks(_c, lambda self: self.place)


class HDoor(UVMRegFrontdoor):
    async def body(self):
        await Cur.scn.door(self.rw_info, self)


class RegHooks(UvmScenario):
    """A place is (register, element, n): element 0 is the register itself,
    1.. its fields; n 0 is the element's own hook, 1.. its callbacks."""
    name = "reg_hooks"
    max_steps = 80000

    def gen(self, rng, tier):
        big = tier != "quick"
        blocks = [{"par": -1, "w": rng.choice([1, 1, 2, 4, 8]),
                   "big": rng.random() < 0.3}]
        if rng.random() < 0.4:
            blocks.append({"par": 0, "big": rng.random() < 0.3,
                           "w": rng.choice([x for x in (1, 2, 4, 8)
                                            if x <= blocks[0]["w"]])})
        regs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            nbits = rng.choice([8, 8, 16, 32, 32, 64])
            cuts = sorted(set(rng.randrange(1, nbits) for _ in range(
                rng.choice([0, 0, 1, 2, 3]))))
            regs.append({"blk": rng.randrange(len(blocks)), "nbits": nbits,
                         "cuts": cuts, "unmap": rng.random() < 0.04,
                         "cbs": [rng.choice([0, 0, 1, 1, 2, 3])
                                 for _ in range(len(cuts) + 2)],
                         "door": rng.random() < 0.15})
        plan = {"blocks": blocks, "regs": regs, "rev": rng.random() < 0.15,
                "style": rng.choice(["done", "done", "rsp", "pipe",
                                     "abstract"]),
                "clients": [], "errs": [], "acts": [],
                "lat": [rng.choice([0, 0, 1, 2, 5, -1, -2])
                        for _ in range(rng.randint(1, 6))]}
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            plan["clients"].append({
                "seq": rng.random() < 0.4,
                "ops": [[rng.choice("wwrrmu"), rng.randrange(len(regs)),
                         rng.getrandbits(64),
                         rng.choice([0, 0, 1, 2]) if rng.random() > 0.05
                         else 3,
                         rng.choice([0, 0, 0, 1, 2, 3, -1, -2])]
                        for _ in range(rng.randint(2, 20 if big else 9))]})
        if rng.random() < 0.4:
            plan["errs"] = sorted(set(
                rng.randrange(1, 30) for _ in range(rng.choice([1, 1, 2]))))
        for _ in range(rng.choice([0, 1, 2, 4, 6])):
            i = rng.randrange(len(regs))
            e = rng.randrange(len(regs[i]["cbs"]))
            plan["acts"].append([
                i, e, rng.randint(0, regs[i]["cbs"][e]),
                rng.choice(HOOKS + HOOKS + ("predict",)), rng.randint(1, 4),
                rng.choice(["status", "statusx", "value", "value", "wait",
                            "wait"]),
                rng.getrandbits(64)])
        return plan

    def valid(self, plan):
        return (bool(plan["lat"]) and bool(plan["clients"])
                and bool(plan["regs"]) and bool(plan["blocks"])
                and plan["blocks"][0]["par"] == -1
                and all(b["w"] in (1, 2, 4, 8) for b in plan["blocks"])
                and all(b["par"] == 0 and b["w"] <= plan["blocks"][0]["w"]
                        for b in plan["blocks"][1:])
                and all(r["blk"] < len(plan["blocks"])
                        and r["nbits"] in (8, 16, 32, 64)
                        and r["cuts"] == sorted(set(r["cuts"]))
                        and all(0 < c < r["nbits"] for c in r["cuts"])
                        and len(r["cbs"]) == len(r["cuts"]) + 2
                        and all(c >= 0 for c in r["cbs"])
                        for r in plan["regs"])
                and all(o[0] in "wrmu" and 0 <= o[1] < len(plan["regs"])
                        and 0 <= o[3] < 4 and o[2] >= 0
                        for c in plan["clients"] for o in c["ops"])
                and all(0 <= a[0] < len(plan["regs"])
                        for a in plan["acts"]))

    # -- bench -----------------------------------------------------------
    def build(self, test):
        p = self.plan
        ctx = Cur.ctx
        ctx.nontrivial = True
        root().set_report_verbosity_level(UVM_LOW)
        self.nword = self.serial = self.errors = 0
        self.over = False
        self.hooked = {}
        self.active = {}
        self.blk, self.maps = [], []
        for i, b in enumerate(p["blocks"]):
            blk = UVMRegBlock("blk%d" % i)
            blk.configure(self.blk[0] if i else None, "")
            self.blk.append(blk)
            m = blk.create_map("map%d" % i, 0, b["w"],
                               UVM_BIG_ENDIAN if b["big"] else
                               UVM_LITTLE_ENDIAN)
            blk.default_map = m
            self.maps.append(m)
            if p["rev"]:
                m.policy = Reverse()
        self.regs, self.fields, self.lay = [], [], []
        self.store, self.mir = [], []
        for i, r in enumerate(p["regs"]):
            b = r["blk"]
            rg = HReg("r%d" % i, r["nbits"])
            rg.place = (i, 0, 0)
            rg.configure(self.blk[b], None, "")
            ends = [0] + r["cuts"] + [r["nbits"]]
            fs = []
            for j, (lo, hi) in enumerate(zip(ends, ends[1:])):
                f = HField("f%d" % j)
                f.place = (i, j + 1, 0)
                f.configure(rg, hi - lo, lo, "RW", False, 0, True, True,
                            False)
                fs.append((f, lo, (1 << (hi - lo)) - 1))
            door = HDoor("door") if r["door"] else None
            self.maps[b].add_reg(rg, 8 * i, "RW", r["unmap"], door)
            for e, n in enumerate(r["cbs"]):
                for k in range(n):
                    cb = HCb("cb%d_%d" % (e, k))
                    cb.place = (i, e, k + 1)
                    UVMCallbacks.add(fs[e - 1][0] if e else rg, cb)
            self.regs.append(rg)
            self.fields.append(fs)
            w = p["blocks"][b]["w"]
            n = -(-r["nbits"] // (8 * w))
            a = (0x100 if b else 0) + 8 * i
            ws = [a + j * w for j in range(n)]
            self.lay.append({"w": w, "addrs": ws[::-1] if
                             p["blocks"][b]["big"] else ws})
            self.store.append(0)
            self.mir.append(0)
        for i in range(1, len(p["blocks"])):
            self.maps[0].add_submap(self.maps[i], 0x100)
        self.blk[0].lock_model()
        for b in self.blk:
            b.reset()
        self.other = UVMRegBlock("other")
        self.other.configure(None, "")
        self.far = self.other.create_map("far", 0, 4, UVM_LITTLE_ENDIAN)
        self.other.lock_model()
        self.sqr = UVMSequencer("sqr", test)
        self.drv = BusDrv("drv", test)
        self.ad = TagAdapter("adapter")
        self.ad.provides_responses = p["style"] in ("rsp", "pipe")

    def connect(self, test):
        self.drv.seq_item_port.connect(self.sqr.seq_item_export)
        self.drv.rsp_port.connect(self.sqr.rsp_export)
        self.maps[0].set_sequencer(
            self.sqr, None if self.plan["style"] == "abstract" else self.ad)
        self.maps[0].set_auto_predict(1)
        self.maps[0].set_check_on_read(False)

    # -- device side -----------------------------------------------------
    async def drive(self, drv):
        ctx = Cur.ctx
        port = drv.seq_item_port
        n = 0
        style = self.plan["style"]
        lat = self.plan["lat"]
        while True:
            q = []
            if style == "pipe":
                await port.get(q)
            else:
                await port.get_next_item(q)
            it = q[0]
            n += 1
            await ctx.delay(lat[n % len(lat)])
            if isinstance(it, UVMRegItem):
                self.whole(self.current(it.extension), it)
                port.item_done()
                continue
            data, ok = self.transfer(it)
            rsp = it
            if style in ("rsp", "pipe"):
                rsp = BusItem("rsp")
                rsp.set_id_info(it)
                rsp.kind, rsp.addr, rsp.be = it.kind, it.addr, it.be
            rsp.data, rsp.ok = data, ok
            if style == "done":
                port.item_done()
            elif style == "rsp":
                port.item_done(rsp)
            else:
                await ctx.delay(lat[(n * 7) % len(lat)])
                await port.put(rsp)

    def bus_error(self):
        self.nword += 1
        if self.nword in self.plan["errs"]:
            Cur.ctx.fault("bus_error")
            return True
        return False

    def current(self, tag):
        ctx = Cur.ctx
        ctx.check(isinstance(tag, OpTag), "spurious",
                  "a bus transfer belongs to no access")
        o = tag.op
        ctx.check(not o["end"] and self.active.get(o["reg"]) is o,
                  "spurious", lambda: "bus transfer while %s is not in "
                  "progress" % o["what"])
        ctx.check(not o["pre"] and o["stage"] == "bus", "hooks", lambda:
                  "bus transfer of %s before its hooks %r" % (
                      o["what"], o["pre"]))
        return o

    def transfer(self, it):
        ctx = Cur.ctx
        o = self.current(it.tag)
        i = o["reg"]
        lay = self.lay[i]
        ws = 8 * lay["w"]
        parts = list(range(len(lay["addrs"])))
        if self.plan["rev"]:
            parts.reverse()
        ctx.check(o["n"] < len(parts), "spurious", lambda:
                  "more bus transfers than %s needs" % o["what"])
        part = parts[o["n"]]
        o["n"] += 1
        mask = (1 << min(ws, self.plan["regs"][i]["nbits"])) - 1
        what = "part %d of %s" % (part, o["what"])
        ctx.eq(it.addr, lay["addrs"][part], "address", "address of " + what)
        ctx.eq(it.kind, o["dir"], "kind", "kind of " + what)
        ok = not self.bus_error()
        data = it.data
        if o["dir"] == "W":
            ctx.eq(it.data, (o["value"] >> part * ws) & mask, "data",
                   "data of " + what)
            if ok:
                self.store[i] = (self.store[i] & ~(mask << part * ws)
                                 | data << part * ws)
        else:
            data = (self.store[i] >> part * ws) & mask if ok else 0
            o["value"] |= data << part * ws
        if not ok or o["n"] == len(parts):
            self.moved(o, ok)
        ctx.rec("bus", i, part, data, ok)
        return data, ok

    def whole(self, o, rw):
        """A whole access through a user frontdoor or without adapter."""
        ctx = Cur.ctx
        i = o["reg"]
        ctx.eq(o["n"], 0, "spurious", "earlier transfers of " + o["what"])
        o["n"] += 1
        ctx.eq((rw.element is self.regs[i], rw.element_kind),
               (True, UVM_REG), "item", "element of " + o["what"])
        ctx.eq(rw.kind, UVM_WRITE if o["dir"] == "W" else UVM_READ, "kind",
               "kind of " + o["what"])
        ok = not self.bus_error()
        if o["dir"] == "W":
            ctx.eq(rw.value[0], o["value"], "data", "data of " + o["what"])
            if ok:
                self.store[i] = o["value"]
        elif ok:
            o["value"] = rw.value[0] = self.store[i]
        rw.status = UVM_IS_OK if ok else UVM_NOT_OK
        self.moved(o, ok)

    def moved(self, o, ok):
        """All transfers done: the access has its effect."""
        o["stage"] = "predict"
        if o["ok"] and not ok:
            o["ok"] = False
            o["st"] = UVM_NOT_OK
        o["fail"] = not ok
        Cur.ctx.cov("%s%s" % (o["dir"], "" if ok else "!"))
        Cur.ctx.state(o["reg"], self.store[o["reg"]])
        r = self.plan["regs"][o["reg"]]
        o["guess"] = [(e, k) for e in range(1, len(r["cbs"]))
                      for k in range(1, r["cbs"][e] + 1)]
        o["mir"] = o["value"] if ok else None

    async def door(self, rw, seq):
        ctx = Cur.ctx
        o = self.current(rw.extension)
        ctx.check(self.plan["regs"][o["reg"]]["door"], "frontdoor",
                  "a user frontdoor of another register was used")
        await ctx.delay(self.plan["lat"][0])
        self.whole(o, rw)
        ctx.cov("door")

    # -- hooks -----------------------------------------------------------
    def started(self, o):
        """The first hook or transfer of an access."""
        if o["stage"] != "new":
            return
        other = self.active.get(o["reg"])
        Cur.ctx.check(other is None, "atomic", lambda:
                      "%s starts while %s is in progress" % (
                          o["what"], other["what"]))
        self.active[o["reg"]] = o
        o["stage"] = "pre"
        if o["seen"] is not None:
            o["seen"]()

    async def hook(self, place, what, rw):
        ctx = Cur.ctx
        i, e, n = place
        tag = rw.extension
        ctx.check(isinstance(tag, OpTag), "hooks", "hook without an access")
        o = tag.op
        ctx.eq(i, o["reg"], "hooks", "register a hook runs for")
        self.started(o)
        ctx.check(not o["end"] and self.active[i] is o, "hooks", lambda:
                  "%s runs after %s ended" % (what, o["what"]))
        ctx.eq(what.split("_")[1], "write" if o["dir"] == "W" else "read",
               "hooks", "hook of " + o["what"])
        if what.startswith("pre"):
            todo = o["pre"]
            ctx.eq(o["stage"], "pre", "hooks", "stage when %s runs for %s" %
                   (what, o["what"]))
            # an element's own hook comes before its callbacks; fields
            # follow each other
            first = [x for x in todo if x[0] == e]
            ok = first and first[0] == (e, n) and (
                not e or not [x for x in todo if 0 < x[0] < e])
        else:
            todo = o["post"]
            if o["stage"] == "predict":
                o["stage"] = "post"
            ctx.eq(o["stage"], "post", "hooks", "stage when %s runs for %s" %
                   (what, o["what"]))
            ok = todo and todo[0] == (e, n)
        ctx.check(ok, "hooks", lambda:
                  "%s of element %d, number %d, runs for %s; left: %r" % (
                      what, e, n, o["what"], todo))
        todo.remove((e, n))
        fs = self.fields[i]
        lo, mask = (0, (1 << self.plan["regs"][i]["nbits"]) - 1) if not e \
            else fs[e - 1][1:]
        if what != "pre_read" and not (o["fail"] and o["dir"] == "R"):
            ctx.eq(rw.value[0], (o["value"] >> lo) & mask, "value",
                   "value seen by %s of element %d of %s" % (what, e,
                                                             o["what"]))
        if n:
            ctx.eq(rw.element is (fs[e - 1][0] if e else self.regs[i]), True,
                   "element", "element seen by a callback of " + o["what"])
        if what.startswith("post"):
            ctx.eq(rw.status, o["st"], "status", "status seen by %s of %s" %
                   (what, o["what"]))
        k = (i, e, n, what)
        c = self.hooked[k] = self.hooked.get(k, 0) + 1
        for a in self.plan["acts"]:
            if tuple(a[:5]) == k + (c,):
                await self.act(o, a, rw, lo, mask)
        if what.startswith("pre") and not o["pre"]:
            o["stage"] = "veto" if o["veto"] else "bus"
            if o["dir"] == "R":
                o["value"] = 0

    async def act(self, o, a, rw, lo, mask):
        ctx = Cur.ctx
        what, do, v = a[3], a[5], a[6]
        ctx.cov("%s:%s" % (what, do))
        if do == "wait":
            await ctx.delay(1 + v % 3)
        elif do in ("status", "statusx"):
            rw.status = o["st"] = UVM_NOT_OK if do == "status" else UVM_HAS_X
            if what.startswith("pre"):
                ctx.fault("veto")
                o["veto"] = True
            else:
                ctx.fault("late_status")
                o["ok"] = False
        elif do == "value" and what in ("pre_write", "post_read"):
            rw.value[0] = v & mask
            o["value"] = o["value"] & ~(mask << lo) | (v & mask) << lo

    def predicted(self, place, fld, previous, value, kind):
        """A callback of a field sees a prediction."""
        ctx = Cur.ctx
        i, e, n = place
        o = self.active.get(i)
        ctx.check(o is not None and o["stage"] == "predict", "predict",
                  "a prediction outside an access to register %d" % i)
        ctx.check(o["guess"] and o["guess"][0] == (e, n), "predict", lambda:
                  "prediction callback %d of element %d of %s; left %r" % (
                      n, e, o["what"], o["guess"]))
        o["guess"].pop(0)
        ctx.eq((fld is self.fields[i][e - 1][0], kind),
               (True, UVM_PREDICT_WRITE if o["dir"] == "W" else
                UVM_PREDICT_READ), "predict", "arguments of a prediction")
        _, lo, mask = self.fields[i][e - 1]
        if self.mir[i] is not None:
            ctx.eq(previous, (self.mir[i] >> lo) & mask, "predict",
                   "previous value of a prediction for " + o["what"])
        if o["mir"] is not None:
            ctx.eq(value[-1], (o["mir"] >> lo) & mask, "predict",
                   "predicted value for " + o["what"])
        k = (i, e, n, "predict")
        c = self.hooked[k] = self.hooked.get(k, 0) + 1
        for a in self.plan["acts"]:
            if tuple(a[:5]) == k + (c,) and a[5] == "value":
                ctx.cov("predict:value")
                value[-1] = a[6] & mask
                if o["mir"] is not None:
                    o["mir"] = o["mir"] & ~(mask << lo) | (a[6] & mask) << lo

    # -- clients ---------------------------------------------------------
    async def main(self, test, phase):
        ctx = Cur.ctx
        ts = []
        for i, c in enumerate(self.plan["clients"]):
            if c["seq"]:
                s = Client("c%d" % i)
                s.cid, s.ops = i, c["ops"]
                ts.append(ctx.spawn(s.start(self.sqr)))
            else:
                ts.append(ctx.spawn(self.client(i, c["ops"], None)))
        ctx.spawn(self.watch(ctx))
        for t in ts:
            await t
        await ctx.delay(20)
        self.over = True

    def after(self, ctx, plan):
        ctx.eq(sev_count(UVM_ERROR), self.errors, "errors",
               "error messages")
        ctx.eq(sev_count(UVM_FATAL), 0, "errors", "fatal messages")

    async def watch(self, ctx):
        await ctx.half()
        while not self.over:
            await Timer(1, "NS")
            ctx.check(ctx.now < 3000000, "stuck",
                      "register accesses do not end")

    async def client(self, cid, ops, par):
        for op in ops:
            await Cur.ctx.delay(op[4])
            await self.do(op, par)

    async def do(self, op, par):
        ctx = Cur.ctx
        kind, i, v, mp, _ = op
        r = self.plan["regs"][i]
        rg = self.regs[i]
        v &= (1 << r["nbits"]) - 1
        where = MAPS[mp]
        mp = [None, self.maps[r["blk"]], self.maps[0], self.far][mp]
        illegal = where == "foreign" or r["unmap"] and not r["door"]
        wr = kind in "wu"
        every = [(e, k) for e in range(len(r["cbs"]))
                 for k in range(r["cbs"][e] + 1)]
        self.serial += 1
        o = {"what": "%s #%d of register %d" % (kind, self.serial, i),
             "reg": i, "dir": "W" if wr else "R", "value": v if wr else 0,
             "ok": True, "st": UVM_IS_OK, "fail": False, "veto": False, "end": False, "n": 0,
             "stage": "new", "pre": list(every), "guess": None, "mir": None,
             "seen": None,
             "post": [(e, k) for e in range(len(r["cbs"]))
                      for k in list(range(1, r["cbs"][e] + 1)) + [0]]}
        what = o["what"]
        tag = OpTag("tag")
        tag.op = o
        e0 = sev_count(UVM_ERROR)
        st, got = [], []
        kw = dict(_map=mp, parent=par, extension=tag)
        if kind == "u":
            rg.set(v)
            if not rg.needs_update():
                await rg.update(st, **kw)
                ctx.eq((st, o["stage"]), ([UVM_IS_OK], "new"), "update",
                       "an update with nothing to do")
                return
            o["value"] = rg.get()
        if illegal:
            if kind != "m" or where != "foreign":
                self.errors += 1
            ctx.cov("illegal")
        if kind == "w":
            await rg.write(st, v, **kw)
        elif kind == "u":
            await rg.update(st, **kw)
        elif kind == "r":
            await rg.read(st, got, **kw)
        else:
            await rg.mirror(st, UVM_NO_CHECK, **kw)
        o["end"] = True
        if self.active.get(i) is o:
            self.active[i] = None
        ctx.eq(len(st), 1, "status", "number of statuses of " + what)
        ctx.eq(st[0], UVM_NOT_OK if illegal else o["st"], "status",
               "status of " + what)
        if illegal:
            ctx.eq(o["stage"], "new", "illegal", "progress of " + what)
            ctx.check(kind == "m" and where == "foreign"
                      or sev_count(UVM_ERROR) > e0, "errors", lambda:
                      "no error was reported for " + what)
            return
        if o["veto"]:
            ctx.eq((o["n"], o["stage"]), (0, "veto"), "veto",
                   "transfers and stage of vetoed " + what)
            return
        ctx.eq((o["pre"], o["post"], o["guess"]), ([], [], []),
               "incomplete", "hooks missing of " + what)
        if kind == "r" and not o["fail"]:
            ctx.eq(got, [o["value"]], "value", "values returned by " + what)
        self.mir[i] = o["mir"]
        if o["mir"] is not None and self.active[i] is None:
            # nobody else got hold of the register yet
            ctx.eq(rg.get_mirrored_value(), o["mir"], "mirror",
                   "mirror after " + what)
