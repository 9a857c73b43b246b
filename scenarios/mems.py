"""Memories of a register model on a simulated bus: every access becomes
exactly the bus transfers of its words, illegal accesses become none, errors
stop an access, hooks and callbacks run once each and in order."""
from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario
from uvm.reg.uvm_reg_model import *
from uvm.reg.uvm_mem import UVMMem
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_cbs import UVMRegCbs
from uvm.reg.uvm_reg_item import UVMRegItem
from uvm.reg.uvm_reg_sequence import UVMRegFrontdoor
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.base.uvm_callback import UVMCallbacks
from cocotb.triggers import Timer
from scenarios.regs import Adapter, BusDrv, BusItem, Client, Reverse

HOOKS = ("pre_write", "post_write", "pre_read", "post_read")
MAPS = ("none", "local", "root", "foreign")
M64 = (1 << 64) - 1


class OpTag(UVMObject):
    """Travels with an access as its extension."""
    op = None


class TagAdapter(Adapter):
    def reg2bus(self, rw):
        b = super().reg2bus(rw)
        b.tag = self.get_item().extension
        return b


class Mem(UVMMem):
    idx = None

    async def pre_write(self, rw):
        await Cur.scn.hook(self, "mem", "pre_write", rw)

    async def post_write(self, rw):
        await Cur.scn.hook(self, "mem", "post_write", rw)

    async def pre_read(self, rw):
        await Cur.scn.hook(self, "mem", "pre_read", rw)

    async def post_read(self, rw):
        await Cur.scn.hook(self, "mem", "post_read", rw)


class MemCb(UVMRegCbs):
    async def pre_write(self, rw):
        await Cur.scn.hook(rw.element, self.get_name(), "pre_write", rw)

    async def post_write(self, rw):
        await Cur.scn.hook(rw.element, self.get_name(), "post_write", rw)

    async def pre_read(self, rw):
        await Cur.scn.hook(rw.element, self.get_name(), "pre_read", rw)

    async def post_read(self, rw):
        await Cur.scn.hook(rw.element, self.get_name(), "post_read", rw)


class Door(UVMRegFrontdoor):
    """A user-defined way to reach a memory."""

    async def body(self):
        await Cur.scn.door(self.rw_info, self)


class MemScenario(UvmScenario):
    name = "memories"
    max_steps = 80000

    # -- plan ------------------------------------------------------------
    def gen(self, rng, tier):
        big = tier != "quick"
        blocks = [{"par": -1, "w": rng.choice([1, 1, 2, 4, 4, 8]),
                   "big": rng.random() < 0.4}]
        for i in range(rng.choice([0, 0, 1, 2])):
            par = rng.randint(0, i)
            blocks.append({"par": par, "big": rng.random() < 0.4,
                           "w": rng.choice([x for x in (1, 2, 4, 8)
                                            if x <= blocks[par]["w"]])})
        solo = rng.random() < 0.4
        mems = []
        for _ in range(rng.randint(1, 4)):
            mems.append({"blk": rng.randrange(len(blocks)),
                         "nbits": rng.choice([1, 7, 8, 8, 12, 16, 24, 32, 32,
                                              40, 64]),
                         "size": rng.choice([1, 1, 2, 3, 4, 8, 16, 64]),
                         "acc": rng.choice(["RW", "RW", "RW", "RO"]),
                         "gap": rng.choice([0, 0, 1, 3]),
                         "cbs": rng.choice([0, 0, 1, 2, 3]),
                         "door": rng.random() < (0.2 if solo else 0.1),
                         "unmap": rng.random() < 0.1,
                         "clash": rng.random() < 0.04})
        plan = {"blocks": blocks, "mems": mems, "byte": rng.random() < 0.7,
                "base": rng.choice([0, 0, 0x100]), "rev": rng.random() < 0.15,
                "style": rng.choice(["done", "done", "rsp", "pipe",
                                     "abstract"]),
                "clients": [], "errs": [], "acts": [],
                "lat": [rng.choice([0, 0, 1, 2, 5, -1, -2])
                        for _ in range(rng.randint(1, 6))]}
        for _ in range(1 if solo else rng.randint(2, 4)):
            plan["clients"].append({
                "seq": rng.random() < 0.4,
                "ops": [self.gen_op(rng, plan)
                        for _ in range(rng.randint(2, 25 if big else 10))]})
        if rng.random() < 0.5:
            plan["errs"] = sorted(set(
                rng.randrange(1, 40) for _ in range(rng.choice([1, 1, 2,
                                                                4]))))
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            i = rng.randrange(len(mems))
            plan["acts"].append([
                i, rng.choice(["mem"] + ["cb%d" % j
                                         for j in range(mems[i]["cbs"])]),
                rng.choice(HOOKS), rng.randint(1, 4),
                rng.choice(["status", "value", "value", "offset", "wait"]),
                rng.getrandbits(64)])
        return plan

    def gen_op(self, rng, plan):
        i = rng.randrange(len(plan["mems"]))
        size = plan["mems"][i]["size"]
        k = rng.choice(["w", "w", "r", "r", "bw", "br", "br"])
        off = rng.randrange(size)
        n = 1
        if k in ("bw", "br"):
            n = rng.choice([1, 2, 3, 4, rng.randint(1, 8)])
            if rng.random() < 0.9:
                off = rng.randrange(max(1, size - n + 1))
                n = min(n, size - off)
        if rng.random() < 0.06:
            off = size + rng.choice([0, 0, 1, 7])
        elif rng.random() < 0.2:
            off = max(0, size - n)
        return [k, i, off, n, rng.getrandbits(64),
                rng.choice([0, 0, 0, 1, 2]) if rng.random() > 0.04 else 3,
                rng.choice([0, 0, 0, 1, 2, 3, -1, -2])]

    def valid(self, plan):
        return (bool(plan["lat"]) and bool(plan["clients"])
                and bool(plan["mems"]) and bool(plan["blocks"])
                and plan["blocks"][0]["par"] == -1
                and all(b["w"] in (1, 2, 4, 8) for b in plan["blocks"])
                and all(0 <= b["par"] < i and
                        b["w"] <= plan["blocks"][b["par"]]["w"]
                        for i, b in enumerate(plan["blocks"]) if i)
                and all(m["blk"] < len(plan["blocks"]) and m["nbits"] > 0
                        and m["size"] > 0 and m["gap"] >= 0
                        and m["cbs"] >= 0
                        and m["acc"] in ("RW", "RO")
                        for m in plan["mems"])
                and all(o[0] in ("w", "r", "bw", "br")
                        and 0 <= o[1] < len(plan["mems"]) and o[2] >= 0
                        and o[3] > 0 and 0 <= o[5] < 4
                        and (o[3] == 1 or o[0] in ("bw", "br"))
                        for c in plan["clients"] for o in c["ops"])
                and all(0 <= a[0] < len(plan["mems"]) and a[2] in HOOKS
                        for a in plan["acts"]))

    def layout(self, plan):
        """Local offset and absolute address of every memory."""
        def unit(b):
            return plan["blocks"][b]["w"] if plan["byte"] else 1

        n = len(plan["blocks"])
        self.clash = 0
        span, suboff, off = [0] * n, [0] * n, {}
        per = {}
        for i, m in enumerate(plan["mems"]):
            w = plan["blocks"][m["blk"]]["w"]
            per[i] = -(-((m["nbits"] + 7) // 8) // w)
        for b in range(n - 1, -1, -1):
            cur, last = 0, None
            for i, m in enumerate(plan["mems"]):
                if m["blk"] == b and not m["unmap"]:
                    size = m["size"] * per[i] * unit(b)
                    if m["clash"] and last is not None:
                        off[i] = last
                        self.clash += 1
                        cur = max(cur, last + size)
                        continue
                    cur += m["gap"] * unit(b)
                    off[i] = last = cur
                    cur += size
            for c in range(b + 1, n):
                if plan["blocks"][c]["par"] == b:
                    cur += -cur % unit(b)
                    suboff[c] = cur
                    cur += span[c]
            span[b] = cur
        out = []
        for i, m in enumerate(plan["mems"]):
            b = m["blk"]
            a, p = off.get(i, 0), b
            while p > 0:
                a += suboff[p]
                p = plan["blocks"][p]["par"]
            out.append({"off": off.get(i, 0), "abs": a + plan["base"],
                        "w": plan["blocks"][b]["w"], "per": per[i],
                        "unit": unit(b), "big": plan["blocks"][b]["big"]})
        return out, suboff

    # -- bench -----------------------------------------------------------
    def build(self, test):
        p = self.plan
        ctx = Cur.ctx
        ctx.nontrivial = True
        self.lay, self.suboff = self.layout(p)
        self.store = [[0] * m["size"] for m in p["mems"]]
        self.nword = 0
        self.errors = 0
        self.serial = 0
        self.over = False
        self.hooked = {}
        self.ops = {}
        root().set_report_verbosity_level(UVM_LOW)
        self.blk, self.maps = [], []
        for i, b in enumerate(p["blocks"]):
            blk = UVMRegBlock("blk%d" % i)
            blk.configure(self.blk[b["par"]] if b["par"] >= 0 else None, "")
            self.blk.append(blk)
            m = blk.create_map("map%d" % i, p["base"] if i == 0 else 0,
                               b["w"], UVM_BIG_ENDIAN if b["big"] else
                               UVM_LITTLE_ENDIAN, p["byte"])
            blk.default_map = m
            self.maps.append(m)
            if p["rev"]:
                m.policy = Reverse()
        self.mems = []
        for i, m in enumerate(p["mems"]):
            mem = Mem("m%d" % i, m["size"], m["nbits"], m["acc"])
            mem.idx = i
            mem.configure(self.blk[m["blk"]], "")
            self.maps[m["blk"]].add_mem(
                mem, self.lay[i]["off"], m["acc"], m["unmap"],
                Door("door") if m["door"] else None)
            for j in range(m["cbs"]):
                UVMCallbacks.add(mem, MemCb("cb%d" % j))
            self.mems.append(mem)
        for i, b in enumerate(p["blocks"]):
            if b["par"] >= 0:
                self.maps[b["par"]].add_submap(self.maps[i], self.suboff[i])
        self.blk[0].lock_model()
        self.other = UVMRegBlock("other")
        self.other.configure(None, "")
        self.far = self.other.create_map("far", 0, 4, UVM_LITTLE_ENDIAN)
        self.other.lock_model()
        n = sum(b["w"] < p["blocks"][b["par"]]["w"] for b in p["blocks"][1:])
        if self.clash:
            ctx.cov("clash")
            ctx.check(sev_count(UVM_WARNING) > n, "overlap",
                      "memories at the same address raise no warning")
        else:
            ctx.eq(sev_count(UVM_WARNING), n, "overlap",
                   "warnings while building a model without overlaps")
        self.sqr = UVMSequencer("sqr", test)
        self.drv = BusDrv("drv", test)
        self.ad = TagAdapter("adapter")
        self.ad.provides_responses = p["style"] in ("rsp", "pipe")

    def connect(self, test):
        self.drv.seq_item_port.connect(self.sqr.seq_item_export)
        self.drv.rsp_port.connect(self.sqr.rsp_export)
        self.maps[0].set_sequencer(
            self.sqr, None if self.plan["style"] == "abstract" else self.ad)
        self.maps[0].set_auto_predict(1)

    def words(self, i, off, n):
        """The transfers of an access: (address, memory word, part)."""
        lay = self.lay[i]
        parts = list(range(lay["per"]))
        if self.plan["rev"]:
            parts.reverse()
        out = []
        for x in range(off, off + n):
            for j in parts:
                k = lay["per"] - 1 - j if lay["big"] else j
                out.append((lay["abs"] + (x * lay["per"] + k) * lay["unit"],
                            x, j))
        return out

    def device(self, kind, i, x, part, data, ok):
        """One transfer as the device sees it; returns the read data."""
        lay = self.lay[i]
        ws = lay["w"] * 8
        lo = part * ws
        mask = ((1 << min(ws, self.plan["mems"][i]["nbits"] - lo)) - 1)
        if not ok:
            return 0
        if kind == "R":
            return (self.store[i][x] >> lo) & mask
        if self.plan["mems"][i]["acc"] == "RW":
            self.store[i][x] = (self.store[i][x] & ~(mask << lo)
                                | (data & mask) << lo)
        return data

    def bus_error(self):
        self.nword += 1
        if self.nword in self.plan["errs"]:
            Cur.ctx.fault("bus_error")
            return True
        return False

    # -- device side -----------------------------------------------------
    async def drive(self, drv):
        ctx = Cur.ctx
        port = drv.seq_item_port
        n = 0
        style = self.plan["style"]
        lat = self.plan["lat"]
        while True:
            q = []
            if style == "pipe":
                await port.get(q)
            else:
                await port.get_next_item(q)
            it = q[0]
            n += 1
            await ctx.delay(lat[n % len(lat)])
            if isinstance(it, UVMRegItem):
                ctx.eq(style, "abstract", "abstract", "bench style")
                self.abstract(it)
                port.item_done()
                continue
            ctx.check(style != "abstract", "abstract", "bench style")
            rsp = it
            data, ok = self.transfer(it)
            if style in ("rsp", "pipe"):
                rsp = BusItem("rsp")
                rsp.set_id_info(it)
                rsp.kind, rsp.addr, rsp.be = it.kind, it.addr, it.be
            rsp.data, rsp.ok = data, ok
            if style == "done":
                port.item_done()
            elif style == "rsp":
                port.item_done(rsp)
            else:
                await ctx.delay(lat[(n * 7) % len(lat)])
                await port.put(rsp)

    def current(self, tag):
        ctx = Cur.ctx
        ctx.check(isinstance(tag, OpTag), "spurious",
                  "a bus transfer belongs to no access")
        o = tag.op
        ctx.check(not o["end"], "spurious", lambda:
                  "bus transfer after %s ended" % o["what"])
        ctx.check(o["left"], "spurious", lambda:
                  "more bus transfers than %s needs" % o["what"])
        return o

    def transfer(self, it):
        ctx = Cur.ctx
        o = self.current(it.tag)
        i = o["mem"]
        lay = self.lay[i]
        addr, x, part = o["left"].pop(0)
        ws = lay["w"] * 8
        nbits = self.plan["mems"][i]["nbits"]
        what = "word %d part %d of %s" % (x, part, o["what"])
        ctx.check(o["stage"] == "bus", "hooks", lambda:
                  "bus transfer of %s in stage %s" % (o["what"], o["stage"]))
        ctx.eq(it.addr, addr, "address", "bus address of " + what)
        ctx.eq(it.kind, o["dir"], "kind", "kind of " + what)
        ctx.eq(it.n_bits, min(ws, nbits - part * ws), "n_bits",
               "size of " + what)
        ctx.eq(it.be, (1 << lay["w"]) - 1, "byte_en",
               "byte enables of " + what)
        if o["dir"] == "W":
            ctx.eq(it.data, (o["value"][x - o["off"]] >> (part * ws))
                   & ((1 << ws) - 1), "data", "data of " + what)
        ok = not self.bus_error()
        data = self.device(o["dir"], i, x, part, it.data, ok)
        if ok and o["dir"] == "R":
            o["got"][x - o["off"]] |= data << (part * ws)
        o["n"] += 1
        if not ok:
            o["ok"] = False
            o["left"] = []
        ctx.cov("%s%d%s" % (o["kind"], lay["per"], "" if ok else "!"))
        ctx.rec("bus", i, x, part, data, ok)
        ctx.state(i, x, self.store[i][x])
        return data, ok

    def abstract(self, it):
        """A whole access sent to the driver (no adapter)."""
        ctx = Cur.ctx
        o = self.current(it.extension)
        i = o["mem"]
        ctx.check(o["stage"] == "bus", "hooks", lambda:
                  "bus transfer of %s in stage %s" % (o["what"], o["stage"]))
        ctx.eq((it.element is self.mems[i], it.element_kind, it.offset),
               (True, UVM_MEM, o["off"]), "abstract", "item of " + o["what"])
        ctx.eq(it.kind, {"w": UVM_WRITE, "r": UVM_READ, "bw":
                         UVM_BURST_WRITE, "br": UVM_BURST_READ}[o["kind"]],
               "kind", "kind of " + o["what"])
        ctx.eq(len(it.value), o["len"], "data", "words of " + o["what"])
        o["left"] = []
        ok = not self.bus_error()
        self.whole(o, it, ok)

    def whole(self, o, rw, ok):
        """Carry out a whole access on the device."""
        ctx = Cur.ctx
        i = o["mem"]
        if o["dir"] == "W":
            ctx.eq(list(rw.value), o["value"], "data", "data of "
                   + o["what"])
        for x in range(o["len"]):
            for part in range(self.lay[i]["per"]):
                ws = self.lay[i]["w"] * 8
                d = self.device(o["dir"], i, o["off"] + x, part,
                                (rw.value[x] >> (part * ws))
                                & ((1 << ws) - 1), ok)
                if o["dir"] == "R":
                    o["got"][x] |= d << (part * ws)
        if o["dir"] == "R" and ok:
            for x in range(o["len"]):
                rw.value[x] = o["got"][x]
        o["ok"] = o["ok"] and ok
        o["n"] += 1
        rw.status = UVM_IS_OK if ok else UVM_NOT_OK
        ctx.cov(o["kind"] + ("a" if ok else "a!"))

    async def door(self, rw, seq):
        ctx = Cur.ctx
        o = self.current(rw.extension)
        i = o["mem"]
        ctx.check(self.plan["mems"][i]["door"], "frontdoor",
                  "a user frontdoor of another memory was used")
        ctx.check(seq.sequencer is self.sqr, "frontdoor",
                  "sequencer of a user frontdoor")
        ctx.eq((rw.element is self.mems[i], rw.offset), (True, o["off"]),
               "frontdoor", "item of " + o["what"])
        await ctx.delay(self.plan["lat"][0])
        o["left"] = []
        self.whole(o, rw, not self.bus_error())
        ctx.cov("door")

    # -- hooks -----------------------------------------------------------
    async def hook(self, el, who, what, rw):
        ctx = Cur.ctx
        i = el.idx
        tag = rw.extension
        ctx.check(isinstance(tag, OpTag), "hooks", "hook without an access")
        o = tag.op
        ctx.eq(i, o["mem"], "hooks", "memory a hook runs for")
        ctx.check(not o["end"], "hooks", lambda:
                  "%s of %s runs after %s ended" % (what, who, o["what"]))
        todo = o["pre"] if what.startswith("pre") else o["post"]
        if what.startswith("post") and o["stage"] == "bus":
            ctx.check(not o["pre"], "hooks", "post hook before pre hooks")
            o["stage"] = "post"
        mine = (who, what)
        ctx.check(mine in todo and (todo is o["post"] and who == "mem"
                                    or todo[0] == mine), "hooks", lambda:
                  "%s %s runs for %s, expected %r" % (who, what, o["what"],
                                                      todo[:1]))
        todo.remove(mine)
        k = (i, who, what)
        n = self.hooked[k] = self.hooked.get(k, 0) + 1
        for a in self.plan["acts"]:
            if tuple(a[:4]) == (i, who, what, n):
                await self.act(o, a, rw, what)
        if what.startswith("pre") and not o["pre"]:
            o["stage"] = "end" if o["veto"] else "bus"
            if not o["veto"]:
                o["left"] = self.words(i, o["off"], o["len"])
                if self.plan["style"] == "abstract" or \
                        self.plan["mems"][i]["door"]:
                    o["left"] = [None]
            else:
                o["post"] = []

    async def act(self, o, a, rw, what):
        ctx = Cur.ctx
        do, v = a[4], a[5]
        pre = what.startswith("pre")
        ctx.cov("%s:%s" % (what, do))
        if do == "wait":
            await ctx.delay(1 + v % 3)
        elif do == "status":
            ctx.fault("veto" if pre else "late_status")
            rw.status = UVM_NOT_OK
            if pre:
                o["veto"] = True
            else:
                o["ok"] = False
        elif do == "value":
            j = v % o["len"]
            x = (v >> 8) & ((1 << self.plan["mems"][o["mem"]]["nbits"]) - 1)
            if what == "pre_write":
                rw.value[j] = x
                o["value"][j] = x
            elif what == "post_read":
                rw.value[j] = x
                o["got"][j] = x
        elif do == "offset" and pre:
            size = self.plan["mems"][o["mem"]]["size"]
            o["off"] = rw.offset = v % (size - o["len"] + 1)

    # -- clients ---------------------------------------------------------
    async def main(self, test, phase):
        ctx = Cur.ctx
        ts = []
        for i, c in enumerate(self.plan["clients"]):
            if c["seq"]:
                s = Client("c%d" % i)
                s.cid, s.ops = i, c["ops"]
                ts.append(ctx.spawn(s.start(self.sqr)))
            else:
                ts.append(ctx.spawn(self.client(i, c["ops"], None)))
        ctx.spawn(self.watch(ctx))
        for t in ts:
            await t
        await ctx.delay(20)
        self.over = True

    def after(self, ctx, plan):
        ctx.eq(sev_count(UVM_ERROR), self.errors, "errors",
               "error messages")
        ctx.eq(sum(sev_count(x) for x in (UVM_FATAL,)), 0, "errors",
               "fatal messages")

    async def watch(self, ctx):
        await ctx.half()
        while not self.over:
            await Timer(1, "NS")
            ctx.check(ctx.now < 10000000, "stuck",
                      "memory accesses do not end")

    async def client(self, cid, ops, par):
        for op in ops:
            await Cur.ctx.delay(op[6])
            await self.do(op, par)

    def illegal(self, o, where):
        """Why an access may not reach the bus (None: it may)."""
        m, lay = self.plan["mems"][o["mem"]], self.lay[o["mem"]]
        if o["off"] >= m["size"]:
            return "offset"
        if where == "foreign":
            return "map"
        if m["door"]:
            return None
        if m["unmap"]:
            return "unmapped"
        if o["len"] > 1:
            if m["nbits"] > lay["w"] * 8:
                return "narrow"
            if o["off"] + o["len"] > m["size"]:
                return "overflow"
        return None

    async def do(self, op, par):
        ctx = Cur.ctx
        kind, i, off, n, v, mp, _ = op
        m = self.plan["mems"][i]
        mem = self.mems[i]
        mask = (1 << m["nbits"]) - 1
        if m["door"] and off < m["size"]:
            n = min(n, m["size"] - off)
        vals = [(v + j * 0x9E3779B97F4A7C15 & M64) & mask for j in range(n)]
        where = MAPS[mp]
        mp = [None, self.maps[m["blk"]], self.maps[0], self.far][mp]
        self.serial += 1
        wr = kind in ("w", "bw")
        cbs = ["cb%d" % j for j in range(m["cbs"])]
        suf = "write" if wr else "read"
        o = {"what": "%s #%d of memory %d at %d (%d words)" % (
                 kind, self.serial, i, off, n),
             "mem": i, "kind": kind, "dir": "W" if wr else "R", "off": off,
             "len": n, "value": list(vals), "got": [0] * n, "ok": True,
             "veto": False, "end": False, "left": [], "n": 0, "stage": "pre",
             "pre": [("mem", "pre_" + suf)] + [(c, "pre_" + suf)
                                               for c in cbs],
             "post": [(c, "post_" + suf) for c in cbs]
             + [("mem", "post_" + suf)]}
        tag = OpTag("tag")
        tag.op = o
        why = self.illegal(o, where)
        if why is not None:
            o["pre"] = o["post"] = []
            o["stage"] = "end"
            self.errors += 1
            ctx.cov("illegal:" + why)
        e0 = self.messages_of(mem)
        st, got = [], []
        kw = dict(_map=mp, parent=par, extension=tag)
        if kind == "w":
            await mem.write(st, off, vals[0], **kw)
        elif kind == "bw":
            mine = list(vals)
            await mem.burst_write(st, off, mine, **kw)
        elif kind == "r":
            await mem.read(st, off, got, **kw)
        else:
            got = [0] * n
            await mem.burst_read(st, off, got, **kw)
        o["end"] = True
        what = o["what"]
        ctx.eq(len(st), 1, "status", "number of statuses of " + what)
        ctx.eq(st[0], UVM_IS_OK if why is None and o["ok"] and not o["veto"]
               else UVM_NOT_OK, "status", "status of " + what)
        if why is not None:
            ctx.check(self.messages_of(mem) > e0, "errors", lambda:
                      "no error was reported for %s (%s)" % (what, why))
            ctx.eq(o["n"], 0, "illegal", "bus transfers of " + what)
            return
        ctx.eq((o["left"], o["pre"] if not o["veto"] else [], o["post"]),
               ([], [], []), "incomplete",
               "transfers and hooks missing of " + what)
        if o["veto"]:
            ctx.eq(o["n"], 0, "veto", "bus transfers of vetoed " + what)
        elif not wr and o["ok"]:
            ctx.eq(list(got), o["got"], "data", "words returned by " + what)

    def messages_of(self, mem):
        return sev_count(UVM_ERROR)
