"""Special registers: tables of registers behind an index and a data register,
and FIFO registers, used by several clients at a time over a bus that fails."""
from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario, root, rserver
from uvm.comps.uvm_driver import UVMDriver
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_fifo import UVMRegFIFO
from uvm.reg.uvm_reg_indirect import UVMRegIndirectData
from uvm.reg.uvm_reg_model import *
from uvm.seq.uvm_sequencer import UVMSequencer
from scenarios.regs import Adapter

IDX, DAT, FIFO, TAB = 0, 0x100, 0x200, 0x400


class Drv(UVMDriver):
    async def run_phase(self, phase):
        await Cur.scn.drive(self)


class Gate:
    """Many or one."""

    def __init__(self):
        self.many, self.one = 0, False

    async def enter(self, alone):
        while self.one or (alone and self.many):
            await Cur.ctx.delay(1)
        if alone:
            self.one = True
        else:
            self.many += 1

    def leave(self, alone):
        if alone:
            self.one = False
        else:
            self.many -= 1


class Special(UvmScenario):
    name = "special_registers"
    max_steps = 80000

    # -- plan -------------------------------------------------------------
    def gen(self, rng, tier):
        big = tier != "quick"
        k = rng.choice([1, 2, 3, 4])
        kinds = [["iw", "ir"], ["iw", "iw", "ir", "xw"],
                 ["fw", "fw", "fr"], ["fw", "fr", "fu", "fm", "fx"],
                 ["dw", "dr", "iw", "ir", "bad", "out"],
                 ["iw", "ir", "xw", "dw", "dr", "fw", "fr", "fu", "fm", "bad"]]
        ops = rng.choice(kinds)
        faulty = rng.random() < 0.5
        plan = {"nb": rng.choice([1, 2, 4]), "bits": rng.choice([8, 16, 32]),
                "tab": [[rng.choice(["RW", "RW", "RO", "W1C", "RC", "WO"]),
                         rng.random() < 0.4] for _ in range(k)],
                "size": rng.choice([1, 2, 2, 3, 5]),
                "fbits": rng.choice([8, 8, 16]),
                "errs": sorted(rng.sample(range(80), rng.choice(
                    [1, 2, 4, 12]))) if faulty else [],
                "flip": sorted(rng.sample(range(12), rng.choice([1, 2])))
                if rng.random() < 0.2 else [],
                "cmp": rng.random() < 0.8,
                "lat": [rng.choice([0, 0, 1, 2, 5, -1, -2])
                        for _ in range(rng.randint(1, 6))],
                "clients": []}
        for _ in range(rng.choice([1, 2, 3, 4, 5])):
            plan["clients"].append([
                [rng.choice(ops), rng.randrange(60), rng.getrandbits(32),
                 rng.choice([0, 0, 0, 1, 2, 3, -1, -2])]
                for _ in range(rng.randint(1, 16 if big else 8))])
        return plan

    def valid(self, plan):
        return (plan["tab"] and plan["size"] and plan["nb"] in (1, 2, 4)
                and plan["bits"] in (8, 16, 32) and plan["fbits"] in (8, 16)
                and plan["lat"] and plan["clients"])

    # -- bench ------------------------------------------------------------
    def build(self, test):
        p = self.plan
        Cur.ctx.nontrivial = True
        root().set_report_verbosity_level(UVM_LOW)
        self.calm = False
        self.nlat = self.nbus = self.npop = 0
        self.gate, self.fgate = Gate(), Gate()
        self.inflight, self.served, self.failed = [], [], []
        self.idx, self.part = 0, {}
        self.dev = [0] * len(p["tab"])
        self.mir = [0] * len(p["tab"])
        self.fifo, self.pend, self.lens = [], [], 0
        self.warn = self.errors = self.others = 0
        b = self.blk = UVMRegBlock("b")
        b.configure(None, "")
        m = self.map = b.default_map = b.create_map(
            "m", 0, p["nb"], UVM_LITTLE_ENDIAN)
        x = self.xreg = UVMReg("idx", 8)
        x.configure(b, None, "")
        UVMRegField("f").configure(x, 8, 0, "RW", False, 0, True, True, False)
        m.add_reg(x, IDX, "RW")
        self.tab = []
        for i, (acc, mapped) in enumerate(p["tab"]):
            r = UVMReg("t%d" % i, p["bits"])
            r.configure(b, None, "")
            UVMRegField("f").configure(r, p["bits"], 0, acc, False, 0, True,
                                       True, False)
            if mapped:
                m.add_reg(r, TAB + 16 * i, "RW")
            self.tab.append(r)
        d = self.dreg = UVMRegIndirectData("dat", p["bits"])
        d.build()
        d.configure(x, self.tab, b)
        m.add_reg(d, DAT, "RW")
        f = self.freg = UVMRegFIFO("fifo", p["size"], p["fbits"], 0)
        f.build()
        f.configure(b, None, "")
        f.set_compare(UVM_CHECK if p["cmp"] else UVM_NO_CHECK)
        m.add_reg(f, FIFO, "RW")
        b.lock_model()
        b.reset()
        self.sqr = UVMSequencer("sqr", test)
        self.drv = Drv("drv", test)

    def connect(self, test):
        self.drv.seq_item_port.connect(self.sqr.seq_item_export)
        self.map.set_sequencer(self.sqr, Adapter("ad"))
        self.map.set_auto_predict(1)
        self.map.set_check_on_read(False)

    # -- the device -------------------------------------------------------
    async def wait(self):
        self.nlat += 1
        await Cur.ctx.delay(self.plan["lat"][self.nlat
                                             % len(self.plan["lat"])])

    async def drive(self, drv):
        port = drv.seq_item_port
        while True:
            q = []
            await port.get_next_item(q)
            it = q[0]
            await self.wait()
            n = self.nbus
            self.nbus += 1
            it.ok = True
            nb = self.plan["nb"]
            base = it.addr & ~0xff
            k = (it.addr & 0xff) // nb
            bits = {IDX: 8, DAT: self.plan["bits"],
                    FIFO: self.plan["fbits"]}.get(base)
            Cur.ctx.check(bits and k < max(1, bits // 8 // nb)
                          and it.addr == base + k * nb, "stray", lambda:
                          "%s at 0x%x" % (it.kind, it.addr))
            last = (k + 1) * nb * 8 >= bits
            fail = n in self.plan["errs"] and not self.calm
            if fail:
                Cur.ctx.fault("bus_error")
            # the words of a register arrive in order and undivided
            w = self.part.pop(base, None)
            Cur.ctx.check((w is None) == (k == 0) and (
                w is None or w[:2] == [base, it.kind] and w[2] == k),
                "interleaved", lambda: "%s of word %d at 0x%x after %r" % (
                    it.kind, k, base, w))
            if k == 0:
                w = [base, it.kind, 0, 0]
                if it.kind == "R" and not fail:
                    w[3] = self.get(base)
                    fail = w[3] is None
            if it.kind == "W":
                w[3] |= (it.data & ((1 << nb * 8) - 1)) << 8 * nb * k
            elif not fail:
                it.data = w[3] >> 8 * nb * k & ((1 << nb * 8) - 1)
            w[2] += 1
            if it.kind == "W" and last and not fail:
                fail = not self.put(base, w[3] & ((1 << bits) - 1))
            if fail:
                it.ok = False
                self.failed.append((base, it.kind, {
                    IDX: w[3], DAT: self.idx}.get(base)))
            elif not last:
                self.part[base] = w
            elif it.kind == "R":
                self.serve(base, "R", w[3])
                if base == FIFO:
                    self.fifo.pop(0)
                    self.lens |= 1 << len(self.fifo)
                    if self.npop in self.plan["flip"]:
                        Cur.ctx.fault("flip")
                        self.warn += self.plan["cmp"]
                    self.npop += 1
            await self.wait()
            port.item_done()

    def serve(self, base, kind, v):
        self.served.append((base, kind, self.idx if base == DAT else None, v))

    def put(self, base, v):
        ctx = Cur.ctx
        if base == IDX:
            ctx.check(any(o["i"] == v for o in self.inflight), "stray",
                      lambda: "index %d written, %r are under way" % (
                          v, self.inflight))
            self.idx = v
        elif base == DAT:
            i = self.idx
            ctx.check(any(o["i"] == i and o["v"] == v and o["k"] == "W"
                          for o in self.inflight), "stray", lambda:
                      "0x%x written to element %d, %r are under way" % (
                          v, i, self.inflight))
            if i >= len(self.dev):
                return False
            acc = self.plan["tab"][i][0]
            if acc in ("RW", "WO"):
                self.dev[i] = v
            elif acc == "W1C":
                self.dev[i] &= ~v
        else:
            ctx.check(v in self.pend, "stray", lambda:
                      "0x%x pushed, %r are due" % (v, self.pend))
            self.pend.remove(v)
            ctx.check(len(self.fifo) < self.plan["size"], "overflow",
                      "written to a full FIFO")
            self.fifo.append(v)
            self.lens |= 1 << len(self.fifo)
        self.serve(base, "W", v)
        return True

    def get(self, base):
        ctx = Cur.ctx
        if base == IDX:
            return self.idx
        if base == FIFO:
            if not self.fifo:
                ctx.cov("underrun")
                return None
            return self.fifo[0] ^ (self.npop in self.plan["flip"])
        i = self.idx
        ctx.check(any(o["i"] == i and o["k"] == "R" for o in self.inflight),
                  "stray", lambda: "element %d read, %r are under way" % (
                      i, self.inflight))
        if i >= len(self.dev):
            return None
        v = self.dev[i]
        acc = self.plan["tab"][i][0]
        if acc == "RC":
            self.dev[i] = 0
        return 0 if acc == "WO" else v

    def take(self, what, where, why):
        Cur.ctx.check(what in where, "status", lambda: "%s: no %r in %r" % (
            why, what, where))
        where.remove(what)

    # -- clients ----------------------------------------------------------
    async def op(self, c, o):
        ctx = Cur.ctx
        kind, x, v, _ = o
        p = self.plan
        i = x % len(p["tab"])
        if kind in ("iw", "ir", "xw"):
            await self.gate.enter(False)
            if kind == "xw":
                self.nx += 1
                await self.index(len(p["tab"]) + self.nx % 200)
            else:
                await self.element(kind, i, v, self.tab[i])
            self.gate.leave(False)
        elif kind in ("dw", "dr", "out", "bad"):
            await self.gate.enter(True)
            if kind == "bad":
                await self.bad(x, v)
            else:
                if kind == "out":
                    i = len(p["tab"]) + x % 5
                if await self.index(i):
                    await self.element("iw" if kind == "dw" else "ir", i, v,
                                       self.dreg)
            self.gate.leave(True)
        else:
            lone = kind in ("fu", "fx")
            await self.fgate.enter(lone)
            if kind in ("fr", "fm"):
                await self.pop(kind)
            elif kind == "fw":
                await self.push(v)
            else:
                await self.fill(kind, x, v)
            self.fgate.leave(lone)

    async def index(self, i):
        o = {"i": i, "k": "X", "v": None}
        self.inflight.append(o)
        st = []
        await self.xreg.write(st, i, UVM_FRONTDOOR, self.map)
        self.inflight.remove(o)
        ok = st[-1] == UVM_IS_OK
        if ok:
            self.take((IDX, "W", None, i), self.served, "index %d" % i)
        else:
            self.take((IDX, "W", i), self.failed, "index %d" % i)
        return ok

    async def element(self, kind, i, v, via):
        """An access of one element, directly or by the data register."""
        ctx = Cur.ctx
        p = self.plan
        v &= (1 << p["bits"]) - 1
        o = {"i": i, "k": kind[1].upper(), "v": v if kind == "iw" else None}
        busy = any(q["i"] == i for q in self.inflight)
        self.inflight.append(o)
        direct = via is not self.dreg
        st, got = [], []
        n = len(self.served), len(self.failed)
        if kind == "iw":
            await via.write(st, v, UVM_FRONTDOOR, self.map)
        else:
            await via.read(st, got, UVM_FRONTDOOR, self.map)
        self.inflight.remove(o)
        busy = busy or any(q["i"] == i for q in self.inflight)
        ok = st[-1] == UVM_IS_OK
        what = "%s of element %d by %s" % (o["k"], i, via.get_name())
        if i >= len(p["tab"]):
            ctx.eq(ok, False, "status", what)
            self.errors += 1
            self.take((DAT, o["k"], i), self.failed, what)
            ctx.cov("no_such_element")
            return
        if ok:
            x = v if kind == "iw" else got[-1]
            self.take((DAT, o["k"], i, x), self.served, what)
            if direct:
                self.take((IDX, "W", None, i), self.served, what)
            acc = p["tab"][i][0]
            if kind == "iw":
                if self.mir[i] is not None or acc in ("RW", "WO"):
                    self.mir[i] = {"RW": v, "WO": v, "W1C":
                                   (self.mir[i] or 0) & ~v}.get(acc,
                                                                self.mir[i])
            elif acc == "RC":
                self.mir[i] = 0
            elif acc != "WO":
                self.mir[i] = x
            ctx.cov("element_" + acc)
        else:
            self.mir[i] = None
            if direct and (IDX, "W", i) in self.failed:
                self.failed.remove((IDX, "W", i))
                ctx.cov("index_failed")
            else:
                if direct:
                    self.take((IDX, "W", None, i), self.served, what)
                self.take((DAT, o["k"], i), self.failed, what)
                ctx.cov("data_failed")
        if busy:
            self.loose.add(i)
        if ok and not busy and i not in self.loose and \
                self.mir[i] is not None:
            ctx.eq(self.tab[i].get_mirrored_value(), self.mir[i], "mirror",
                   "after %s" % what)
        ctx.rec(kind, i, ok)

    async def bad(self, x, v):
        """What a data register does not support has no effect."""
        ctx = Cur.ctx
        n = self.nbus
        st, got = [], []
        d = self.dreg
        what = ["poke", "peek", "update", "mirror"][x % 4]
        if what == "poke":
            await d.poke(st, v)
        elif what == "peek":
            await d.peek(st, got)
        elif what == "update":
            await d.update(st, UVM_FRONTDOOR)
        else:
            await d.mirror(st, UVM_NO_CHECK, UVM_FRONTDOOR)
        if x % 4 < 2:
            self.errors += 1
        ctx.eq((st[-1], self.quiet(n)),
               (UVM_NOT_OK if x % 4 < 2 else UVM_IS_OK, True), "unsupported",
               what + " of the data register")
        ctx.cov(what)

    def quiet(self, n):
        """Only other clients were on the bus."""
        return not any(s[0] == DAT for s in self.served + self.failed)

    # -- FIFO -------------------------------------------------------------
    async def push(self, v):
        ctx = Cur.ctx
        v &= (1 << self.plan["fbits"]) - 1
        self.pend.append(v)
        self.lens = 1 << len(self.fifo) if not self.nfifo else self.lens
        self.nfifo += 1
        st = []
        await self.freg.write(st, v, UVM_FRONTDOOR, self.map)
        self.nfifo -= 1
        if st[-1] == UVM_IS_OK:
            self.take((FIFO, "W", None, v), self.served, "push")
            ctx.cov("pushed")
        elif (FIFO, "W", None) in self.failed:
            self.failed.remove((FIFO, "W", None))
            self.pend.remove(v)
            ctx.cov("push_failed")
        else:
            ctx.check(v in self.pend and (
                self.broken or self.lens >> self.plan["size"] & 1),
                      "rejected", lambda: "a write was rejected: %r %r" % (
                          self.fifo, self.freg.fifo))
            self.pend.remove(v)
            self.errors += 1
            ctx.cov("full")
        self.level()
        ctx.rec("push", v, st[-1] == UVM_IS_OK)

    async def pop(self, kind):
        ctx = Cur.ctx
        self.lens = 1 << len(self.fifo) if not self.nfifo else self.lens
        self.nfifo += 1
        st, got = [], []
        if kind == "fr":
            await self.freg.read(st, got, UVM_FRONTDOOR, self.map)
        else:
            await self.freg.mirror(st, UVM_NO_CHECK, UVM_FRONTDOOR, self.map)
        self.nfifo -= 1
        if st[-1] == UVM_IS_OK:
            s = [x for x in self.served if x[:2] == (FIFO, "R")]
            ctx.check(bool(s), "status", "nothing was read")
            self.take(s[0] if kind == "fm" else (FIFO, "R", None, got[-1]),
                      self.served, "pop")
            ctx.cov("popped")
        elif any(x[:2] == (FIFO, "R") for x in self.failed):
            self.failed.remove(next(x for x in self.failed
                                    if x[:2] == (FIFO, "R")))
            ctx.cov("pop_failed")
        else:
            ctx.check(self.broken or self.lens & 1, "rejected", lambda:
                      "a read was rejected: %r %r" % (self.fifo,
                                                      self.freg.fifo))
            ctx.cov("empty")
        self.level()
        ctx.rec("pop", st[-1] == UVM_IS_OK)

    async def fill(self, kind, x, v):
        """Set some values, then write them all."""
        ctx = Cur.ctx
        size, bits = self.plan["size"], self.plan["fbits"]
        vals = [(v + 37 * k) & (1 << bits) - 1 for k in range(x % 4)]
        room = size - self.freg.size()
        for k, y in enumerate(vals):
            self.freg.set(y)
        vals = vals[:room]
        n = len(self.failed)
        ok = True
        if kind == "fx" and vals:
            st = []
            await self.freg.write(st, v, UVM_FRONTDOOR, self.map)
            ctx.eq(st[-1], UVM_NOT_OK, "status",
                   "status of a write between set and update")
            self.errors += 1
            ctx.cov("needs_update")
        self.pend += vals
        self.nfifo += 1
        st = []
        await self.freg.update(st, UVM_FRONTDOOR, self.map)
        self.nfifo -= 1
        good = bad = 0
        for y in vals:
            if (FIFO, "W", None, y) in self.served:
                self.served.remove((FIFO, "W", None, y))
                ok = True
            else:
                self.take((FIFO, "W", None), self.failed, "update")
                self.pend.remove(y)
                ok = False
                self.broken = True
        ctx.eq(st[-1:], [UVM_IS_OK if ok else UVM_NOT_OK], "status",
               "status of update of %r" % vals)
        ctx.cov("updated_%d" % len(vals))
        self.level()
        ctx.rec("fill", len(vals))

    def level(self):
        if self.nfifo or self.broken:
            return
        ctx = Cur.ctx
        f = self.freg
        ctx.eq((f.size(), f.capacity(), f.fifo),
               (len(self.fifo), self.plan["size"], self.fifo), "mirror",
               "the mirrored FIFO")
        if self.fifo:
            ctx.eq(f.get(), self.fifo[0], "mirror", "front of the FIFO")

    async def client(self, c, ops):
        for o in ops:
            await Cur.ctx.delay(o[3])
            await self.op(c, o)

    async def main(self, test, phase):
        ctx = Cur.ctx
        self.nx = self.nfifo = 0
        self.broken = False
        self.loose = set()
        for i in range(len(self.dev)):
            self.dev[i] = self.mir[i] = 0
        ts = [ctx.spawn(self.client(c, ops))
              for c, ops in enumerate(self.plan["clients"])]
        for t in ts:
            await t.join()
        # with the faults over, everything can be accessed again
        self.calm = True
        self.loose.clear()
        for i in range(len(self.dev)):
            if self.plan["tab"][i][0] != "WO":
                await self.element("ir", i, 0, self.tab[i])
            await self.element("iw", i, 5 + i, self.tab[i])
        while self.fifo:
            n = len(self.fifo)
            await self.pop("fr")
            ctx.check(self.broken or len(self.fifo) < n, "progress",
                      "the FIFO cannot be emptied")
            if self.broken and len(self.fifo) == n:
                break
        ctx.eq((self.served, self.failed, self.pend), ([], [], []), "extra",
               "transfers nobody asked for")
        ctx.state(tuple(self.dev), tuple(self.fifo))

    def after(self, ctx, plan):
        ctx.eq((sev_count(UVM_FATAL), sev_count(UVM_ERROR)),
               (0, self.errors), "reports", "fatal messages, errors")
        if not self.broken:
            ctx.eq(rserver().get_id_count("MIRROR_MISMATCH"), self.warn,
                   "reports", "mismatches")
