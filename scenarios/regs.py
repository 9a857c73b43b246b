"""Register models on a simulated bus: the decomposition of register accesses
into bus transfers, their atomicity, and the coherence of the mirror with the
device, under concurrency and bus faults."""
from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario
from uvm.reg.uvm_reg_model import *
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_map import UVMRegMap, UVMRegTransactionOrderPolicy
from uvm.reg.uvm_reg_item import UVMRegItem
from uvm.reg.uvm_reg_adapter import UVMRegAdapter
from uvm.reg.uvm_reg_predictor import UVMRegPredictor
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.seq.uvm_sequence import UVMSequence
from uvm.seq.uvm_sequence_item import UVMSequenceItem
from uvm.comps.uvm_driver import UVMDriver
from uvm.tlm1.uvm_analysis_port import UVMAnalysisPort
from cocotb.triggers import Event, Timer

# access -> effect of a written bit (None: keep, else f(cur, wr)), of a read
K = None
S0 = lambda c, w: 0                                     # noqa: E731
S1 = lambda c, w: 1                                     # noqa: E731
WR = lambda c, w: w                                     # noqa: E731
POL = {
    "RO": (K, K), "RW": (WR, K), "RC": (K, 0), "RS": (K, 1),
    "WRC": (WR, 0), "WRS": (WR, 1), "WC": (S0, K), "WS": (S1, K),
    "WSRC": (S1, 0), "WCRS": (S0, 1),
    "W1C": (lambda c, w: c & (1 - w), K), "W1S": (lambda c, w: c | w, K),
    "W1T": (lambda c, w: c ^ w, K), "W0C": (lambda c, w: c & w, K),
    "W0S": (lambda c, w: c | (1 - w), K),
    "W0T": (lambda c, w: c ^ (1 - w), K),
    "W1SRC": (lambda c, w: c | w, 0),
    "W1CRS": (lambda c, w: c & (1 - w), 1),
    "W0SRC": (lambda c, w: c | (1 - w), 0),
    "W0CRS": (lambda c, w: c & w, 1),
    "WO": (WR, K), "WOC": (S0, K), "WOS": (S1, K), "W1": (WR, K),
    "WO1": (WR, K)}
WO = ("WO", "WOC", "WOS", "WO1")
ONCE = ("W1", "WO1")


class BusItem(UVMSequenceItem):
    def __init__(self, name="bus"):
        super().__init__(name)
        self.kind = None
        self.addr = self.data = self.be = self.n_bits = 0
        self.ok = None

    def convert2string(self):
        return "bus %s %x %x" % (self.kind, self.addr, self.data)


class Adapter(UVMRegAdapter):
    def reg2bus(self, rw):
        b = BusItem()
        b.kind = "W" if rw.kind in (UVM_WRITE, UVM_BURST_WRITE) else "R"
        b.addr, b.data, b.be = rw.addr, rw.data, rw.byte_en
        b.n_bits = rw.n_bits
        return b

    def bus2reg(self, b, rw):
        rw.kind = UVM_WRITE if b.kind == "W" else UVM_READ
        rw.addr, rw.data, rw.byte_en = b.addr, b.data, b.be
        rw.status = UVM_IS_OK if b.ok else UVM_NOT_OK


class Reverse(UVMRegTransactionOrderPolicy):
    def order(self, q):
        q.reverse()


class Reg(UVMReg):
    idx = None

    async def pre_write(self, rw):
        await Cur.scn.hook(self, "pre_write", rw)

    async def post_write(self, rw):
        await Cur.scn.hook(self, "post_write", rw)

    async def pre_read(self, rw):
        await Cur.scn.hook(self, "pre_read", rw)

    async def post_read(self, rw):
        await Cur.scn.hook(self, "post_read", rw)


class BusDrv(UVMDriver):
    async def run_phase(self, phase):
        await Cur.scn.drive(self)


class Foreign(UVMSequence):
    item = None

    async def body(self):
        await self.start_item(self.item)
        await self.finish_item(self.item)


class Client(UVMSequence):
    ops = None
    cid = 0

    async def body(self):
        await Cur.scn.client(self.cid, self.ops, self)


class DutReg(object):
    """One register of the simulated device, bit by bit."""

    def __init__(self, r, w):
        self.nbits = r["nbits"]
        self.n = -(-((self.nbits + 7) // 8) // w)
        self.ws = 8 * w
        self.rights = r["rights"]
        self.acc = {}
        self.fields = r["fields"]
        self.state = 0
        for f in r["fields"]:
            for b in range(f["lsb"], f["lsb"] + f["size"]):
                self.acc[b] = f["acc"]
            self.state |= f["reset"] << f["lsb"]
        self.reset = self.state
        self.hard()

    def hard(self):
        self.state = self.reset
        self.mir = self.state           # the mirror a model should hold
        self.once = set()
        self.mirset = set()             # write-once fields already written

    def can(self, kind, acc):
        if kind == "W":
            return "W" in self.rights and (
                self.rights == "RW" or acc in ("RW", "WO"))
        return "R" in self.rights

    def word(self, i, kind, data):
        lo, hi = i * self.ws, min((i + 1) * self.ws, self.nbits)
        out = 0
        for b in range(lo, hi):
            acc = self.acc.get(b)
            if acc is None:
                continue
            c = (self.state >> b) & 1
            if kind == "W":
                f = POL[acc][0]
                if f is None or not self.can("W", acc) or (
                        acc in ONCE and b in self.once):
                    continue
                v = f(c, (data >> (b - lo)) & 1)
                if acc in ONCE:
                    self.once.add(b)
            else:
                if not self.can("R", acc) or acc in WO:
                    continue
                out |= c << (b - lo)
                v = POL[acc][1]
                if v is None:
                    continue
            self.state = self.state & ~(1 << b) | v << b
        return out

    def predict(self, kind, value, be=-1):
        """What the mirror should be after a whole access; a field belongs
        to the byte in which it begins."""
        m = self.mir
        on = set()
        for f in self.fields:
            if (be >> (f["lsb"] // 8)) & 1:
                on.update(range(f["lsb"], f["lsb"] + f["size"]))
        for b, acc in self.acc.items():
            if b not in on:
                continue
            c, v = (m >> b) & 1, (value >> b) & 1
            if kind == "W":
                f = POL[acc][0]
                if f is None or not self.can("W", acc):
                    continue
                if acc in ONCE:
                    if b in self.mirset:
                        continue
                    self.mirset.add(b)
                n = f(c, v)
            else:
                if acc in WO or not self.can("R", acc):
                    continue
                n = v if POL[acc][1] is None else POL[acc][1]
            m = m & ~(1 << b) | n << b
        self.mir = m

    def cmp_mask(self):
        m = 0
        for f in self.fields:
            if not f["vol"] and f["acc"] not in WO and self.rights != "WO":
                m |= ((1 << f["size"]) - 1) << f["lsb"]
        return m


class RegBase(UvmScenario):
    max_steps = 80000
    faults = False
    solo = 0.4

    # -- plan ------------------------------------------------------------
    def gen_fields(self, rng, nbits):
        fs, b = [], 0
        while b < nbits and len(fs) < 6:
            if rng.random() < 0.25:
                b += rng.randint(1, 5)
            size = min(rng.choice([1, 1, 2, 3, 4, 8, 8, 13, 16, nbits]),
                       nbits - b)
            if size <= 0:
                break
            fs.append({"size": size, "lsb": b, "vol": rng.random() < 0.1,
                       "acc": rng.choice(["RW"] * 8 + sorted(POL)),
                       "reset": rng.getrandbits(size)})
            b += size
        return fs or [{"size": nbits, "lsb": 0, "vol": False, "acc": "RW",
                       "reset": 0}]

    def gen(self, rng, tier):
        big = tier != "quick"
        w = rng.choice([1, 1, 2, 4, 4, 8])
        blocks = [{"par": -1, "w": w, "big": rng.random() < 0.4}]
        for i in range(rng.choice([0, 0, 1, 2])):
            par = rng.randint(0, i)
            blocks.append({"par": par, "big": rng.random() < 0.4,
                           "w": rng.choice([x for x in (1, 2, 4, 8)
                                            if x <= blocks[par]["w"]])})
        regs = []
        hot = rng.random() < 0.3        # everybody fights for one register
        for _ in range(1 if hot else rng.randint(1, 5)):
            nbits = rng.choice([1, 8, 8, 12, 16, 24, 32, 32, 40, 64])
            r = {"blk": rng.randrange(len(blocks)), "nbits": nbits,
                 "gap": rng.choice([0, 0, 1, 3]), "rights": "RW",
                 "fields": self.gen_fields(rng, nbits)}
            k = rng.random()
            if k < 0.1 and not any(f["acc"] in WO for f in r["fields"]):
                r["rights"] = "RO"
            elif k < 0.2:
                r["rights"] = "WO"
                for f in r["fields"]:
                    f["acc"] = rng.choice(["RW", "WO"])
            regs.append(r)
        solo = not hot and rng.random() < self.solo
        pred = rng.random() < 0.4
        plan = {"blocks": blocks, "regs": regs, "byte": rng.random() < 0.7,
                "base": rng.choice([0, 0, 0x100]), "solo": solo,
                "pred": pred, "con": rng.random() < 0.3,
                "style": rng.choice(["done", "done", "rsp", "pipe",
                                     "abstract"]),
                "rev": rng.random() < 0.15, "clients": [], "errs": [],
                "lat": [rng.choice([0, 0, 1, 2, 5, -1, -2])
                        for _ in range(rng.randint(1, 6))]}
        if pred and plan["style"] == "abstract":
            plan["style"] = "done"
        for _ in range(1 if solo else rng.randint(2 + hot, 4 + hot)):
            plan["clients"].append({
                "seq": rng.random() < 0.4,
                "ops": [self.gen_op(rng, plan)
                        for _ in range(rng.randint(2, 30 if big else 12))]})
        if self.faults:
            self.gen_faults(rng, plan)
        return plan

    def gen_op(self, rng, plan):
        r = rng.randrange(len(plan["regs"]))
        v = rng.choice([0, (1 << 64) - 1, rng.getrandbits(64),
                        rng.getrandbits(64), rng.getrandbits(8)])
        d = rng.choice([0, 0, 0, 1, 2, 3, -1, -2])
        ops = ["w", "w", "w", "r", "r", "m", "mc"]
        if plan["solo"]:
            ops += ["u", "u", "p", "px", "bu", "bm", "flip", "rst"]
        if plan["pred"]:
            ops += ["fw", "fr"]
        k = rng.choice(ops)
        if k == "px":
            # an observed access, with byte enables
            return [k, r, v, d, rng.choice("WR"),
                    rng.choice([1, 2, 3, 4, 5, 6, 12, 255, rng.getrandbits(8),
                                rng.getrandbits(8)])]
        return [k, r, v, d]

    def gen_faults(self, rng, plan):
        n = rng.choice([1, 1, 2, 3, 6])
        plan["errs"] = sorted(set(rng.randrange(1, 40) for _ in range(n)))
        plan["veto"] = [[rng.randrange(len(plan["regs"])),
                         rng.choice(["pre_write", "pre_read"]),
                         rng.randint(1, 5)]
                        for _ in range(rng.choice([0, 0, 1, 2]))]

    def valid(self, plan):
        return (bool(plan["lat"]) and bool(plan["clients"])
                and bool(plan["regs"]) and bool(plan["blocks"])
                and plan["blocks"][0]["par"] == -1
                and all(b["par"] < i and b["par"] >= 0 and
                        b["w"] <= plan["blocks"][b["par"]]["w"]
                        for i, b in enumerate(plan["blocks"]) if i)
                and all(b["w"] in (1, 2, 4, 8) for b in plan["blocks"])
                and all(r["blk"] < len(plan["blocks"]) and r["nbits"] > 0
                        and r["gap"] >= 0 and bool(r["fields"])
                        and all(f["lsb"] + f["size"] <= r["nbits"]
                                and f["size"] > 0
                                and f["reset"] < 1 << f["size"]
                                for f in r["fields"])
                        and all(f["lsb"] + f["size"] <= g["lsb"] for f, g in
                                zip(r["fields"], r["fields"][1:]))
                        for r in plan["regs"])
                and all(0 <= o[1] < len(plan["regs"]) and o[2] >= 0
                        for c in plan["clients"] for o in c["ops"])
                and all(0 <= v[0] < len(plan["regs"])
                        for v in plan.get("veto", [])))

    # -- address layout (stated independently of the code) ---------------
    def layout(self, plan):
        """Per register: local offset, word width, absolute word addresses
        from least to most significant word; per block: submap offset."""
        def unit(w):
            return w if plan["byte"] else 1
        n = len(plan["blocks"])
        span, suboff, off = [0] * n, [0] * n, {}
        for b in range(n - 1, -1, -1):
            cur = 0
            w = plan["blocks"][b]["w"]
            for i, r in enumerate(plan["regs"]):
                if r["blk"] == b:
                    cur += r["gap"] * unit(w)
                    off[i] = cur
                    cur += -(-((r["nbits"] + 7) // 8) // w) * unit(w)
            for c in range(b + 1, n):
                if plan["blocks"][c]["par"] == b:
                    cur += -cur % unit(w)
                    suboff[c] = cur
                    cur += span[c]
            span[b] = cur
        out = []
        for i, r in enumerate(plan["regs"]):
            b = r["blk"]
            w, big = plan["blocks"][b]["w"], plan["blocks"][b]["big"]
            a, p = off[i], b
            while p > 0:
                a += suboff[p]
                p = plan["blocks"][p]["par"]
            a += plan["base"]
            k = -(-((r["nbits"] + 7) // 8) // w)
            ws = [a + j * unit(w) for j in range(k)]
            out.append({"off": off[i], "w": w,
                        "addrs": ws[::-1] if big else ws})
        return out, suboff

    # -- bench -----------------------------------------------------------
    async def run(self, ctx, plan):
        Cur.scn = self
        Cur.ctx = ctx
        self.plan = plan
        self.lay, self.suboff = self.layout(plan)
        self.dut = [DutReg(r, l["w"])
                    for r, l in zip(plan["regs"], self.lay)]
        self.where = {}
        for i, l in enumerate(self.lay):
            for j, a in enumerate(l["addrs"]):
                self.where[a] = (i, j)
        self.group = {}             # register -> access in progress
        self.groups = []            # complete accesses
        self.busy = [0] * len(self.dut)
        self.taint = set()
        self.nword = 0
        self.errors = 0
        self.maybe = 0              # mismatches after failed accesses
        self.serial = 0
        self.hooked = {}
        self.over = False
        await run_test("SimTest")
        n = sev_count(UVM_ERROR)
        ctx.check(self.errors <= n <= self.errors + self.maybe, "errors",
                  lambda: "%d error messages, expected %d (+%d)" % (
                      n, self.errors, self.maybe))
        ctx.check(not self.group, "partial", lambda:
                  "accesses left half done: %r" % self.group)
        ctx.eq([g for g in self.groups if not g["by"]], [], "spurious",
               "bus accesses that nobody asked for")

    def build(self, test):
        p = self.plan
        self.blk, self.maps = [], []
        for i, b in enumerate(p["blocks"]):
            blk = UVMRegBlock("blk%d" % i)
            if b["par"] >= 0:
                blk.configure(self.blk[b["par"]], "")
            else:
                blk.configure(None, "")
            self.blk.append(blk)
            m = blk.create_map("map%d" % i, p["base"] if i == 0 else 0,
                               b["w"], UVM_BIG_ENDIAN if b["big"] else
                               UVM_LITTLE_ENDIAN, p["byte"])
            blk.default_map = m
            self.maps.append(m)
            if p["rev"]:
                m.policy = Reverse()
        self.regs = []
        for i, r in enumerate(p["regs"]):
            rg = Reg("r%d" % i, r["nbits"])
            rg.idx = i
            rg.configure(self.blk[r["blk"]], None, "")
            for j, f in enumerate(r["fields"]):
                fl = UVMRegField("f%d" % j)
                fl.configure(rg, f["size"], f["lsb"], f["acc"], f["vol"],
                             f["reset"], True, True, False)
            self.maps[r["blk"]].add_reg(rg, self.lay[i]["off"], r["rights"])
            self.regs.append(rg)
        for i, b in enumerate(p["blocks"]):
            if b["par"] >= 0:
                self.maps[b["par"]].add_submap(self.maps[i], self.suboff[i])
        self.blk[0].lock_model()
        for b in self.blk:
            b.reset()
        self.sqr = UVMSequencer("sqr", test)
        self.drv = BusDrv("drv", test)
        self.ad = Adapter("adapter")
        self.ad.provides_responses = p["style"] in ("rsp", "pipe")
        self.ap = UVMAnalysisPort("ap", test)
        self.pred = None
        if p["pred"]:
            self.pred = UVMRegPredictor("pred", test)
            self.pred.map = self.maps[0]
            self.pred.adapter = self.ad

    def connect(self, test):
        p = self.plan
        self.drv.seq_item_port.connect(self.sqr.seq_item_export)
        self.drv.rsp_port.connect(self.sqr.rsp_export)
        m = self.maps[0]
        m.set_sequencer(self.sqr,
                        None if p["style"] == "abstract" else self.ad)
        m.set_auto_predict(0 if p["pred"] else 1)
        for x in self.maps:
            x.set_check_on_read(bool(p["con"]))
        if self.pred is not None:
            self.ap.connect(self.pred.bus_in)

    # -- device side -----------------------------------------------------
    async def drive(self, drv):
        ctx = Cur.ctx
        port = drv.seq_item_port
        n = 0
        style = self.plan["style"]
        lat = self.plan["lat"]
        while True:
            q = []
            if style == "pipe":
                await port.get(q)
            else:
                await port.get_next_item(q)
            it = q[0]
            n += 1
            await ctx.delay(lat[n % len(lat)])
            if isinstance(it, UVMRegItem):
                ctx.eq(style, "abstract", "abstract", "bench style")
                self.abstract(it)
                port.item_done()
                continue
            rsp = it
            data, ok = self.word(it)
            if style in ("rsp", "pipe"):
                rsp = BusItem("rsp")
                rsp.set_id_info(it)
                rsp.kind, rsp.addr, rsp.be = it.kind, it.addr, it.be
                rsp.data = it.data
            else:
                it.ok = ok
            if rsp.kind == "R":
                rsp.data = data
            rsp.ok = ok
            if ok:
                self.ap.write(rsp)
                self.publish(it)
            if isinstance(it.get_parent_sequence(), Foreign):
                it.good = ok
                it.done.set()
            if style == "done":
                port.item_done()
            elif style == "rsp":
                port.item_done(rsp if not isinstance(
                    it.get_parent_sequence(), Foreign) else None)
            elif not isinstance(it.get_parent_sequence(), Foreign):
                await ctx.delay(lat[(n * 7) % len(lat)])
                await port.put(rsp)

    def bus_error(self):
        self.nword += 1
        if self.nword in self.plan["errs"]:
            Cur.ctx.fault("bus_error")
            return True
        return False

    def word(self, it):
        ctx = Cur.ctx
        ctx.nontrivial = True
        foreign = isinstance(it.get_parent_sequence(), Foreign)
        ctx.check(it.addr in self.where, "address", lambda:
                  "bus access to %x, where no register is" % it.addr)
        i, j = self.where[it.addr]
        d = self.dut[i]
        ws = self.lay[i]["w"] * 8
        order = list(range(d.n))
        if self.plan["rev"]:
            order.reverse()
        ok = not self.bus_error()
        ctx.eq(it.n_bits, min(ws, d.nbits - j * ws), "n_bits",
               "size of the transfer to word %d of register %d" % (j, i))
        ctx.eq(it.be, (1 << self.lay[i]["w"]) - 1, "byte_en",
               "byte enables")
        ctx.check(0 <= it.data < 1 << ws, "data",
                  "data wider than the bus")
        g = self.group.get(i)
        if g is None:
            g = self.group[i] = {"reg": i, "kind": it.kind, "data": 0,
                                 "n": 0, "ok": True, "by": None,
                                 "t0": self.tick(), "pub": 0,
                                 "rsp": 0, "mir0": d.mir}
            if foreign:
                g["by"] = "foreign"
        ctx.eq(it.kind, g["kind"], "interleaved",
               "access kind within one access to register %d" % i)
        ctx.eq(foreign, g["by"] == "foreign", "interleaved",
               "masters within one access to register %d" % i)
        ctx.eq(j, order[g["n"]], "order",
               "word of register %d accessed" % i)
        out = d.word(j, it.kind, it.data) if ok else ctx.choose(2)
        ctx.cov("%s%d%s" % (it.kind, d.n, "" if ok else "!"))
        g["data"] |= (it.data if it.kind == "W" else out) << (j * ws)
        g["n"] += 1
        g["ok"] = ok
        ctx.rec("bus", it.kind, i, j, it.data if it.kind == "W" else out, ok)
        if g["n"] == d.n or not ok:
            self.complete(g)
        return out, ok

    def complete(self, g):
        d = self.dut[g["reg"]]
        del self.group[g["reg"]]
        g["t1"] = self.tick()
        if not g["ok"]:
            if self.pred is None or d.n > 1:
                self.taint.add(g["reg"])
            if self.pred is not None and d.n > 1:
                self.maybe += 1000      # the predictor saw half an access
        else:
            if self.plan["con"] and g["kind"] == "R":
                self.judge(g, d.mir, "check_on_read")
            d.predict(g["kind"], g["data"])
        g["mir"] = d.mir
        Cur.ctx.state(g["reg"], g["kind"], d.state, d.mir)
        self.groups.append(g)

    def judge(self, g, mir, name):
        """Expect a mismatch report exactly when the values differ."""
        i = g["reg"]
        if i in self.taint:
            self.maybe += 1
        elif (g["data"] ^ mir) & self.dut[i].cmp_mask():
            self.errors += 1
            Cur.ctx.cov(name)

    def abstract(self, it):
        """A register-level item sent to the sequencer (no adapter)."""
        ctx = Cur.ctx
        ctx.nontrivial = True
        i = it.element.idx
        d = self.dut[i]
        kind = "W" if it.kind == UVM_WRITE else "R"
        ok = not self.bus_error()
        g = {"reg": i, "kind": kind, "data": 0, "n": d.n, "ok": ok,
             "by": None, "t0": self.tick(), "mir0": d.mir}
        self.group[i] = g
        if ok:
            v = 0
            for j in range(d.n):
                v |= d.word(j, kind, (it.value[0] >> (j * d.ws)) &
                            ((1 << d.ws) - 1)) << (j * d.ws)
            if kind == "R":
                it.value[0] = v
        g["data"] = it.value[0]
        it.status = UVM_IS_OK if ok else UVM_NOT_OK
        self.complete(g)

    def publish(self, it):
        """Mirror check right after the monitor saw a whole access."""
        ctx = Cur.ctx
        if self.pred is None:
            return
        i, _ = self.where[it.addr]
        if i not in self.group and i not in self.taint:
            ctx.eq(self.regs[i].get_mirrored_value(), self.dut[i].mir,
                   "mirror", "mirror of register %d after an observed %s"
                   % (i, it.kind))

    def tick(self):
        self.serial += 1
        return self.serial

    # -- clients ---------------------------------------------------------
    async def main(self, test, phase):
        ctx = Cur.ctx
        ts = []
        for i, c in enumerate(self.plan["clients"]):
            if c["seq"]:
                s = Client("c%d" % i)
                s.cid, s.ops = i, c["ops"]
                ts.append(ctx.spawn(s.start(self.sqr)))
            else:
                ts.append(ctx.spawn(self.client(i, c["ops"], None)))
        ctx.spawn(self.watch(ctx))
        for t in ts:
            await t
        await ctx.delay(20)
        self.over = True
        for i in range(len(self.dut)):
            self.look(i, "at the end")

    async def watch(self, ctx):
        await ctx.half()
        while not self.over:
            await Timer(1, "NS")
            ctx.check(ctx.now < 10000000, "stuck",
                      "register accesses do not end")

    async def hook(self, rg, what, rw):
        k = (rg.idx, what)
        self.hooked[k] = self.hooked.get(k, 0) + 1
        for i, h, n in self.plan.get("veto", []):
            if (i, h) == k and n == self.hooked[k]:
                Cur.ctx.fault("veto_" + what)
                rw.status = UVM_NOT_OK
                return

    def look(self, i, when):
        ctx = Cur.ctx
        if i in self.taint or i in self.group:
            return
        ctx.eq(self.regs[i].get_mirrored_value(), self.dut[i].mir, "mirror",
               "mirror of register %d %s" % (i, when))

    def claim(self, i, kind, value, t0, status, what):
        """The one complete bus access that carried out this call."""
        ctx = Cur.ctx
        for g in self.groups:
            if (g["reg"] == i and g["kind"] == kind and g["by"] is None
                    and g["t0"] > t0
                    and (g["ok"]) == (status == UVM_IS_OK)
                    and (g["data"] == value or not g["ok"]
                         and kind == "R")):
                g["by"] = what
                return g
            if (g["reg"] == i and g["kind"] == kind and g["by"] is None
                    and not g["ok"] and status == UVM_NOT_OK
                    and g["t0"] > t0):
                g["by"] = what
                return g
        ctx.fail("lost", "no bus access carried out %s of register %d "
                 "(value %x, status %s): %r" % (
                     what, i, value, status,
                     [h for h in self.groups if h["by"] is None]))

    async def client(self, cid, ops, par):
        for op in ops:
            await Cur.ctx.delay(op[3])
            await self.do(op, par)

    async def do(self, op, par):
        ctx = Cur.ctx
        k, i, v = op[:3]
        solo = self.plan["solo"]
        d, rg = self.dut[i], self.regs[i]
        v &= (1 << d.nbits) - 1
        if k in ("fw", "fr"):
            if self.pred is not None:
                await self.foreign(k, i, v)
            return
        if k == "flip":
            d.state ^= v & sum(1 << b for b in d.acc)
            ctx.fault("upset")
            return
        if k == "rst":
            for r in self.blk:
                r.reset()
            for x in self.dut:
                x.hard()
            if self.pred is None:
                self.taint.clear()
            for j in range(len(self.dut)):
                self.look(j, "after reset")
            return
        if k == "p":
            await self.direct(i, v)
            return
        if k == "px":
            self.observed(i, v, op[4], op[5])
            return
        if k in ("bu", "bm"):
            await self.block(k, v)
            return
        self.busy[i] += 1
        t0 = self.tick()
        st = []
        if k == "w":
            await rg.write(st, v, parent=par)
            self.status(st, "write()")
            self.landed(i, "W", v, t0, st, "write()")
        elif k == "r":
            q = []
            await rg.read(st, q, parent=par)
            self.status(st, "read()")
            ctx.eq(len(q), 1, "status", "number of values read")
            self.landed(i, "R", q[0], t0, st, "read()")
        elif k in ("m", "mc"):
            chk = k == "mc" and not (self.plan["pred"] and not solo)
            m0 = d.mir
            await rg.mirror(st, UVM_CHECK if chk else UVM_NO_CHECK,
                            parent=par)
            self.status(st, "mirror()")
            g = self.landed(i, "R", None, t0, st, "mirror()")
            if chk and g is not None:
                self.judge(g, m0 if solo else g["mir0"], "mismatch")
        elif k == "u":
            await self.update(i, v, par, t0)
        self.busy[i] -= 1
        if not self.busy[i]:
            self.look(i, "after %s" % k)

    def status(self, st, what):
        Cur.ctx.eq(len(st), 1, "status", "number of statuses of " + what)
        Cur.ctx.check(st[0] in (UVM_IS_OK, UVM_NOT_OK), "status", lambda:
                      "status of %s is %r" % (what, st[0]))

    def landed(self, i, kind, value, t0, st, what):
        ctx = Cur.ctx
        if st[0] != UVM_IS_OK and self.vetoes(i, kind):
            return None
        if value is None:
            for g in self.groups:
                if (g["reg"] == i and g["kind"] == kind and g["by"] is None
                        and g["t0"] > t0
                        and g["ok"] == (st[0] == UVM_IS_OK)):
                    g["by"] = what
                    return g if g["ok"] else None
            ctx.fail("lost", "no bus access carried out %s of register %d"
                     % (what, i))
        g = self.claim(i, kind, value, t0, st[0], what)
        return g

    def vetoes(self, i, kind):
        h = "pre_write" if kind == "W" else "pre_read"
        for j, x, n in self.plan.get("veto", []):
            if (j, x) == (i, h) and n <= self.hooked.get((i, h), 0):
                k = (j, x, n)
                if k not in self.used_veto:
                    self.used_veto.add(k)
                    return True
        return False

    async def update(self, i, v, par, t0):
        ctx = Cur.ctx
        d, rg = self.dut[i], self.regs[i]
        rg.set(v)
        want = rg.get()
        need = rg.needs_update()
        vol = any(f["vol"] for f in d.fields)
        if i not in self.taint:
            ctx.eq(bool(need), vol or want != d.mir, "needs_update",
                   "needs_update() of register %d" % i)
        clean = d.mir == d.state and i not in self.taint
        n = len(self.groups)
        st = []
        await rg.update(st, parent=par)
        self.status(st, "update()")
        new = self.groups[n:]
        if not need:
            ctx.eq(st[0], UVM_IS_OK, "status", "update() with nothing to do")
            ctx.eq(new, [], "update", "bus accesses of an unneeded update()")
        elif not (st[0] != UVM_IS_OK and self.vetoes(i, "W")):
            ctx.eq([(g["reg"], g["kind"]) for g in new], [(i, "W")],
                   "update", "bus accesses of an update()")
            new[0]["by"] = "update()"
            ctx.eq(st[0] == UVM_IS_OK, new[0]["ok"], "status",
                   "status of update()")
        if clean and st[0] == UVM_IS_OK and d.rights == "RW":
            ctx.eq(d.state, want, "update",
                   "device register %d after update()" % i)
            ctx.cov("update")

    async def block(self, k, v):
        ctx = Cur.ctx
        todo = []
        n = len(self.groups)
        t = []
        if k == "bu":
            for j, rg in enumerate(self.regs):
                if (v >> j) & 1:
                    rg.set(v & ((1 << self.dut[j].nbits) - 1))
            todo = [j for j, rg in enumerate(self.regs) if rg.needs_update()]
            await self.blk[0].update(t)
            kind = "W"
        else:
            mir = [d.mir for d in self.dut]
            todo = list(range(len(self.regs)))
            await self.blk[0].mirror(t, UVM_CHECK if v & 1 else
                                     UVM_NO_CHECK)
            kind = "R"
        self.status(t, "block " + k)
        new = self.groups[n:]
        for g in new:
            g["by"] = k
        bad = [g for g in new if not g["ok"]]
        if self.plan.get("veto"):
            bad += [j for j in todo if self.vetoes(j, kind)]
        ctx.eq(t[0] == UVM_IS_OK, not bad, "status",
               "status of the block's " + k)
        if k == "bu":
            self.errors += len(bad)
        else:
            if v & 1:
                for g in new:
                    if g["ok"]:
                        self.judge(g, mir[g["reg"]], "block_mismatch")
        if not self.plan["errs"] and not self.plan.get("veto"):
            ctx.eq(sorted(g["reg"] for g in new), todo, "block",
                   "registers accessed by the block's %s" % k)
            ctx.eq(t[0], UVM_IS_OK, "status", "status of the block's " + k)
        ctx.eq({g["kind"] for g in new} - {kind}, set(), "block",
               "kind of accesses by the block's " + k)
        ctx.cov(k)
        for j in todo:
            self.look(j, "after the block's " + k)

    async def direct(self, i, v):
        ctx = Cur.ctx
        d = self.dut[i]
        m = sum(1 << b for b in d.acc)
        ctx.eq(self.regs[i].predict(v), 1, "predict", "predict() result")
        d.mir = v & m
        self.look(i, "after predict()")

    def observed(self, i, v, kind, be):
        """A model of something that watches the device tells the mirror of
        an access it has seen (the device is left as it is)."""
        ctx = Cur.ctx
        ctx.eq(self.regs[i].predict(v, be, UVM_PREDICT_WRITE if kind == "W"
                                    else UVM_PREDICT_READ),
               1, "predict", "predict() result")
        self.dut[i].predict(kind, v, be)
        ctx.cov("predict_" + kind)
        self.look(i, "after predict() of an observed %s with byte enables "
                  "%x" % (kind, be))

    async def foreign(self, k, i, v):
        """Another bus master; a predictor has to follow it."""
        ctx = Cur.ctx
        d = self.dut[i]
        if not self.plan["solo"] and d.n > 1:
            return
        ctx.cov("foreign")
        order = list(range(d.n))
        if self.plan["rev"]:
            order.reverse()
        for j in order:
            b = BusItem("f")
            ws = self.lay[i]["w"] * 8
            b.kind = "W" if k == "fw" else "R"
            b.addr = self.lay[i]["addrs"][j]
            b.be = (1 << self.lay[i]["w"]) - 1
            b.n_bits = min(ws, d.nbits - j * ws)
            if k == "fw":
                b.data = (v >> (j * ws)) & ((1 << ws) - 1)
            s = Foreign("foreign")
            s.item = b
            b.done = Event("done")
            await s.start(self.sqr)
            await b.done.wait()
            if not b.good:
                return


class RegCoherence(RegBase):
    name = "reg_coherence"


class RegFaults(RegBase):
    name = "reg_faults"
    faults = True

    async def run(self, ctx, plan):
        self.used_veto = set()
        await super().run(ctx, plan)
