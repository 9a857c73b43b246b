"""The built-in register and memory tests run against a simulated device that
behaves as modelled, or not: they visit everything that is not excluded, pass
what conforms and report exactly what deviates."""
from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario
from uvm.reg.uvm_reg_model import *
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_mem import UVMMem
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_predictor import UVMRegPredictor
from uvm.reg.sequences.uvm_reg_hw_reset_seq import UVMRegHWResetSeq
from uvm.reg.sequences.uvm_reg_bit_bash_seq import UVMRegBitBashSeq
from uvm.reg.sequences.uvm_mem_walk_seq import UVMMemWalkSeq
from uvm.reg.sequences.uvm_reg_mem_built_in_seq import UVMRegMemBuiltInSeq
from uvm.base.uvm_resource_db import UVMResourceDb
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.tlm1.uvm_analysis_port import UVMAnalysisPort
from scenarios.regs import Adapter, BusItem, DutReg, POL, WO


class HW(UVMRegHWResetSeq):
    async def reset_blk(self, blk):
        await Cur.scn.reset(self, blk)


class Bash(UVMRegBitBashSeq):
    async def reset_blk(self, blk):
        await Cur.scn.reset(self, blk)


class Walk(UVMMemWalkSeq):
    async def reset_blk(self, blk):
        await Cur.scn.reset(self, blk)


for t in (HW, Bash, Walk):
    uvm_object_utils(t)
KINDS = {HW: "hw", Bash: "bash", Walk: "walk"}
OFF = {"hw": "NO_REG_HW_RESET_TEST", "bash": "NO_REG_BIT_BASH_TEST",
       "walk": "NO_MEM_WALK_TEST"}
BITS = {"hw": UVM_DO_REG_HW_RESET, "bash": UVM_DO_REG_BIT_BASH,
        "walk": UVM_DO_MEM_WALK}


class Drv(UVMDriver):
    bus = None

    async def run_phase(self, phase):
        await Cur.scn.drive(self)


class TDut(DutReg):
    """A register of the device, seen through several maps; maybe broken."""

    def __init__(self, r, ws):
        self.r, self.w = r, ws
        self.stuck, self.deaf, self.wrong, self.cross = {}, False, 0, None
        for f in r["faults"]:
            if f[0] == "stuck":
                self.stuck[f[1]] = f[2]
            elif f[0] == "deaf":
                self.deaf = True
            elif f[0] == "reset":
                self.wrong |= 1 << f[1]
            elif f[0] == "cross":
                self.cross = (f[1], f[2])
        super().__init__(dict(r, rights="RW"), ws[0])

    def at(self, m):
        self.ws = 8 * self.w[m]
        self.n = -(-((self.nbits + 7) // 8) // self.w[m])
        self.rights = self.r["maps"][str(m)]

    def hard(self):
        super().hard()
        self.state ^= self.wrong
        self.bend()

    def bend(self):
        for b, v in self.stuck.items():
            self.state = self.state & ~(1 << b) | v << b

    def word(self, i, kind, data):
        if kind == "W":
            if self.deaf:
                return 0
            if self.cross:
                a, b = [x - i * self.ws for x in self.cross]
                if 0 <= min(a, b) and max(a, b) < self.ws:
                    x, y = (data >> a) & 1, (data >> b) & 1
                    data = data & ~(1 << a | 1 << b) | y << a | x << b
        out = super().word(i, kind, data)
        self.bend()
        return out


class RegTests(UvmScenario):
    name = "regtests"
    max_steps = 400000

    # -- plan -------------------------------------------------------------
    def gen(self, rng, tier):
        big = tier != "quick"
        nm = rng.choice([1, 1, 2])
        nb = rng.choice([1, 1, 2, 3, 4])
        blocks = [{"par": -1}]
        for i in range(1, nb):
            blocks.append({"par": rng.choice([0, rng.randrange(i)])})
        plan = {"nm": nm, "blocks": blocks, "regs": [],
                "mems": [], "w": [rng.choice([1, 2, 4]) for _ in range(nm)],
                "con": rng.random() < 0.2,
                "pred": rng.random() < 0.3, "rsp": rng.random() < 0.3,
                "excl": [], "clients": [],
                "lat": [rng.choice([0, 0, 0, 1, 2, -1])
                        for _ in range(rng.randint(1, 4))]}
        sick = rng.random() < 0.6
        for _ in range(rng.randint(1, 6 if big else 4)):
            nbits = rng.choice([8, 8, 16, 16, 24, 32, 3, 12])
            fs, b = [], 0
            while b < nbits and len(fs) < 4:
                b += rng.choice([0, 0, 0, 1, 3])
                size = min(rng.choice([1, 2, 4, 8, nbits]), nbits - b)
                if size <= 0:
                    break
                fs.append({"size": size, "lsb": b, "vol": rng.random() < .1,
                           "acc": rng.choice(["RW"] * 6 + sorted(POL)),
                           "reset": rng.getrandbits(size)})
                b += size
            if not fs:
                fs = [{"size": nbits, "lsb": 0, "vol": False, "acc": "RW",
                       "reset": 0}]
            maps = sorted(rng.sample(range(nm), rng.randint(1, nm)))
            plan["regs"].append({
                "blk": rng.randrange(nb), "nbits": nbits, "fields": fs,
                "maps": {str(m): "RO" if rng.random() < 0.1 and not any(
                    f["acc"] in WO for f in fs) else "RW" for m in maps},
                "faults": self.gen_faults(rng, nbits) if sick
                and rng.random() < 0.4 else []})
        # mostly about memories and their maps
        memory = nm > 1 and rng.random() < 0.35
        if memory:
            del plan["regs"][1:]
        for _ in range(rng.choice([1, 2] if memory else [0, 0, 1, 1, 2])):
            nbits = rng.choice([1, 4, 8, 16, 32, 32])
            size = rng.choice([1, 2, 3, 5] if memory else [1, 2, 3, 5, 8, 17])
            fl = []
            if sick and rng.random() < 0.5:
                fl.append(rng.choice([
                    ["cell", rng.randrange(size), rng.randrange(nbits),
                     rng.randrange(2)],
                    ["alias", rng.randrange(size), rng.randrange(size)],
                    ["deaf", rng.randrange(size)],
                    ["err", rng.randint(1, 4 * size)]]))
            maps = sorted(rng.sample(range(nm), rng.randint(1, nm)))
            if memory:
                maps = list(range(nm))
            plan["mems"].append({
                "blk": rng.randrange(nb), "nbits": nbits, "size": size,
                "acc": rng.choice(["RW", "RW", "RW", "RO"]), "faults": fl,
                "maps": {str(m): rng.choice(["RW", "RW", "RO"])
                         for m in maps}})
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.choice("rrbbm")
            n = len(plan[{"r": "regs", "b": "blocks", "m": "mems"}[k]])
            if k == "b" and plan["mems"] and rng.random() < 0.5:
                plan["excl"].append(["b", rng.choice(plan["mems"])["blk"],
                                     rng.choice(["NO_MEM_WALK_TEST",
                                                 "NO_MEM_TESTS"])])
            elif n:
                plan["excl"].append([k, rng.randrange(n), rng.choice(
                    sorted(OFF.values()) + ["NO_REG_TESTS", "NO_MEM_TESTS",
                                         "NO_MEM_ACCESS_TEST"])])
        kids = [i for i in range(1, nb) if blocks[i]["par"] == 0]
        if kids and rng.random() < 0.5:
            tops = kids
        else:
            tops = [0]
        for t in tops:
            c = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.25:
                    c.append(["all", rng.choice(sorted(BITS)) if
                              rng.random() < 0.3 else "", rng.choice(
                                  [0, 1, 3, -1])])
                else:
                    c.append([rng.choice(["hw", "bash", "bash", "walk",
                                          "walk"] if not memory else
                                         ["hw", "walk", "walk"]), "",
                              rng.choice([0, 0, 1, 3, -1])])
            plan["clients"].append({"blk": t, "tests": c})
        if tops != [0]:                 # (scopes match as prefixes, see C02)
            plan["excl"] = [e for e in plan["excl"] if e[:2] != ["b", 0]]
        while self.cost(plan) > (6000 if big else 1500):
            c = rng.choice(plan["clients"])
            x = rng.choice(plan["regs"] + plan["mems"])
            if len(x["maps"]) > 1:
                x["maps"].popitem()
            elif len(c["tests"]) > 1:
                c["tests"].pop()
            elif len(plan["regs"]) > 1:
                plan["regs"].pop()
            elif len(plan["mems"]):
                plan["mems"].pop()
            else:
                break
        plan["excl"] = [e for e in plan["excl"] if e[1] < len(plan[
            {"r": "regs", "b": "blocks", "m": "mems"}[e[0]]])]
        plan["noise"] = [[rng.choice("wr"), rng.randrange(nm),
                          rng.getrandbits(16), rng.choice([0, 1, 2, 7])]
                         for _ in range(rng.choice([0, 0, 5, 20]))]
        return plan

    def cost(self, plan):
        """Roughly the transfers a plan leads to."""
        bash = sum(4 * r["nbits"] * -(-r["nbits"] // (8 * plan["w"][int(m)]))
                   for r in plan["regs"] for m in r["maps"])
        walk = sum(3 * m["size"] * -(-m["nbits"] // (8 * plan["w"][int(x)]))
                   for m in plan["mems"] for x in m["maps"])
        n = [t[1] or t[0] for c in plan["clients"] for t in c["tests"]]
        return bash * (n.count("bash") + n.count("all")) + walk * (
            n.count("walk") + n.count("all"))

    def gen_faults(self, rng, nbits):
        out = []
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.random()
            a = rng.randrange(nbits)
            if k < 0.4:
                out.append(["stuck", a, rng.randrange(2)])
            elif k < 0.5:
                out.append(["deaf"])
            elif k < 0.7:
                out.append(["reset", a])
            elif k < 0.85 and nbits > 1:
                b = rng.choice([x for x in range(nbits) if x != a])
                out.append(["cross", a, b])
            else:
                out.append(["err", rng.randint(1, 12)])
        return out

    def valid(self, plan):
        nm, nb = plan["nm"], len(plan["blocks"])
        tops = [c["blk"] for c in plan["clients"]]
        return (plan["blocks"] and plan["blocks"][0]["par"] == -1
                and all(0 <= b["par"] < i for i, b in
                        enumerate(plan["blocks"]) if i)
                and 0 < nm == len(plan["w"]) and plan["lat"]
                and all(w in (1, 2, 4) for w in plan["w"])
                and bool(plan["regs"])
                and all(0 <= r["blk"] < nb and r["maps"]
                        and all(int(m) < nm for m in r["maps"])
                        for r in plan["regs"] + plan["mems"])
                and all(r["fields"] and r["nbits"] > 0 and all(
                    f["size"] > 0 and f["lsb"] + f["size"] <= r["nbits"]
                    and f["reset"] < 1 << f["size"] for f in r["fields"])
                    and all(f["lsb"] + f["size"] <= g["lsb"] for f, g in
                            zip(r["fields"], r["fields"][1:]))
                    and not any(f[0] in ("stuck", "reset") and
                                f[1] >= r["nbits"] for f in r["faults"])
                    and (not any(f["acc"] in WO for f in r["fields"])
                         or "RO" not in r["maps"].values())
                    for r in plan["regs"])
                and all(m["size"] > 0 and m["nbits"] > 0 and not any(
                    f[0] in ("cell", "alias", "deaf") and
                    f[1] >= m["size"] for f in m["faults"])
                    for m in plan["mems"])
                and all(0 <= e[1] < len(plan[
                    {"r": "regs", "b": "blocks", "m": "mems"}[e[0]]])
                    for e in plan["excl"])
                and (tops == [0] or not any(e[:2] == ["b", 0]
                                            for e in plan["excl"]))
                and all(0 <= n[1] < nm for n in plan["noise"])
                and bool(tops) and len(set(tops)) == len(tops)
                and (tops == [0] or all(
                    0 < t < nb and plan["blocks"][t]["par"] == 0
                    for t in tops)))

    # -- bench ------------------------------------------------------------
    def build(self, test):
        p, ctx = self.plan, Cur.ctx
        root().set_report_verbosity_level(UVM_LOW)
        nm = p["nm"]
        self.blk, self.maps = [], []
        for i, b in enumerate(p["blocks"]):
            blk = UVMRegBlock("b%d" % i)
            blk.configure(self.blk[b["par"]] if i else None, "")
            self.blk.append(blk)
        n = len(self.blk)
        self.regs, self.mems, self.dut, self.store = [], [], [], []
        for i, r in enumerate(p["regs"]):
            rg = UVMReg("r%d" % i, r["nbits"])
            rg.configure(self.blk[r["blk"]], None, "")
            for j, f in enumerate(r["fields"]):
                fl = UVMRegField("f%d" % j)
                fl.configure(rg, f["size"], f["lsb"], f["acc"], f["vol"],
                             f["reset"], True, True, False)
            self.regs.append(rg)
            self.dut.append(TDut(r, p["w"]))
        for i, m in enumerate(p["mems"]):
            mem = UVMMem("m%d" % i, m["size"], m["nbits"], m["acc"])
            mem.configure(self.blk[m["blk"]], "")
            self.mems.append(mem)
            self.store.append([0] * m["size"])
        # a register nobody tests, for other traffic
        self.noise = UVMReg("noise", 16)
        self.noise.configure(self.blk[0], None, "")
        fl = UVMRegField("f")
        fl.configure(self.noise, 16, 0, "RW", True, 0, True, True, False)
        self.nstate = 0
        self.maps = [[None] * nm for _ in self.blk]
        self.addr = {}              # (item, map) -> local offset
        span = [[0] * nm for _ in self.blk]
        sub = {}
        self.where = {}
        for b in range(n - 1, -1, -1):
            for m in range(nm):
                w = p["w"][m]
                mp = self.maps[b][m] = self.blk[b].create_map(
                    "map%d" % m, 0x40 if b == 0 else 0, w,
                    UVM_LITTLE_ENDIAN, True)
                if m == 0:
                    self.blk[b].default_map = mp
                cur = 0
                if b == 0:
                    mp.add_reg(self.noise, 0, "RW")
                    cur = 4
                    self.addr[("n", 0, m)] = 0
                for i, r in enumerate(p["regs"]):
                    if r["blk"] == b and str(m) in r["maps"]:
                        mp.add_reg(self.regs[i], cur, r["maps"][str(m)])
                        self.addr[("r", i, m)] = cur
                        cur += -(-((r["nbits"] + 7) // 8) // w) * w
                for i, x in enumerate(p["mems"]):
                    if x["blk"] == b and str(m) in x["maps"]:
                        mp.add_mem(self.mems[i], cur, x["maps"][str(m)])
                        self.addr[("m", i, m)] = cur
                        cur += x["size"] * -(-((x["nbits"] + 7) // 8) // w
                                             ) * w
                for c in range(b + 1, n):
                    if p["blocks"][c]["par"] == b:
                        sub[c, m] = cur
                        mp.add_submap(self.maps[c][m], cur)
                        cur += span[c][m]
                span[b][m] = cur
        for (k, i, m), a in self.addr.items():
            b = 0 if k == "n" else p["regs" if k == "r" else "mems"][i]["blk"]
            while b > 0:
                a += sub[b, m]
                b = p["blocks"][b]["par"]
            w = p["w"][m]
            if k == "m":
                per = -(-((p["mems"][i]["nbits"] + 7) // 8) // w)
                for x in range(p["mems"][i]["size"] * per):
                    self.where[m, 0x40 + a + x * w] = (k, i, x // per,
                                                          x % per)
            else:
                nbits = 16 if k == "n" else p["regs"][i]["nbits"]
                for x in range(-(-((nbits + 7) // 8) // w)):
                    self.where[m, 0x40 + a + x * w] = (k, i, x, 0)
        self.blk[0].lock_model()
        self.blk[0].reset()
        self.off = set()
        for k, i, what in p["excl"] + [["n", 0, "NO_REG_TESTS"]]:
            x = {"r": self.regs, "b": self.blk, "m": self.mems,
                 "n": [self.noise]}[k][i]
            UVMResourceDb.set("REG::" + x.get_full_name(), what, 1)
            self.off.add((k, i, what))
        self.bus = {}
        for m in range(nm):
            self.add_bus(test, m)
        for t, o in ((HW, UVMRegHWResetSeq), (Bash, UVMRegBitBashSeq),
                     (Walk, UVMMemWalkSeq)):
            o.type_id.set_type_override(t.type_id.get())
        self.job = {}               # block -> test running on it
        self.units = {}             # (kind, item, map) -> generator
        self.visits = {}
        self.count = {}             # item -> transfers so far
        self.errs = {}              # item -> [least, most] errors
        self.taint = set()
        self.over = False

    def add_bus(self, test, m):
        p = self.plan
        d = Drv("drv%d" % m, test)
        d.bus = m
        s = UVMSequencer("sqr%d" % m, test)
        ad = Adapter("ad%d" % m)
        ad.provides_responses = p["rsp"]
        self.maps[0][m].set_sequencer(s, ad)
        self.maps[0][m].set_auto_predict(0 if p["pred"] else 1)
        self.maps[0][m].set_check_on_read(p["con"])
        ap = pred = None
        if p["pred"]:
            ap = UVMAnalysisPort("ap%d" % m, test)
            pred = UVMRegPredictor("pred%d" % m, test)
            pred.map, pred.adapter = self.maps[0][m], ad
        self.bus[m] = (d, s, ap, pred)

    def connect(self, test):
        for d, s, ap, pred in self.bus.values():
            d.seq_item_port.connect(s.seq_item_export)
            d.rsp_port.connect(s.rsp_export)
            if pred is not None:
                ap.connect(pred.bus_in)

    # -- device side ------------------------------------------------------
    async def drive(self, drv):
        ctx, port = Cur.ctx, drv.seq_item_port
        ap = self.bus[drv.bus][2]
        n = 0
        while True:
            q = []
            await port.get_next_item(q)
            it = q[0]
            n += 1
            await ctx.delay(self.plan["lat"][n % len(self.plan["lat"])])
            rsp = it
            data, ok = self.transfer(drv.bus, it)
            if self.plan["rsp"]:
                rsp = BusItem("rsp")
                rsp.set_id_info(it)
                rsp.kind, rsp.addr, rsp.be = it.kind, it.addr, it.be
                rsp.data = it.data
            if it.kind == "R":
                rsp.data = data
            rsp.ok = ok
            if ok and ap is not None:
                ap.write(rsp)
            port.item_done(rsp if self.plan["rsp"] else None)

    def transfer(self, bus, it):
        ctx = Cur.ctx
        key = (bus, it.addr)
        ctx.check(key in self.where, "address", lambda:
                  "transfer to %x of bus %d, where nothing is" % (it.addr,
                                                                  bus))
        k, i, x, part = self.where[key]
        m = bus
        ctx.nontrivial = True
        if k == "n":
            ws = 8 * self.plan["w"][m]
            mask = ((1 << ws) - 1) << (x * ws) & 0xffff
            if it.kind == "W":
                self.nstate = self.nstate & ~mask | it.data << (x * ws) & mask
            return (self.nstate & mask) >> (x * ws), True
        n = self.count[k, i] = self.count.get((k, i), 0) + 1
        spec = self.plan["regs" if k == "r" else "mems"][i]
        ok = ["err", n] not in spec["faults"]
        if not ok:
            ctx.fault("bus_error")
        u = (k, i, m)
        if u not in self.units:
            job = self.find_job(spec["blk"])
            ctx.check(job is not None and (job == "walk") == (k == "m"),
                      "spurious", lambda: "transfer to %s%d while %s runs" % (
                          k, i, job))
            ctx.check(not self.excluded(k, i, job), "excluded", lambda:
                      "%s%d takes part in test %s, from which it is excluded"
                      % (k, i, job))
            if k == "m":
                ctx.check(self.walks(i, m), "excluded", lambda: "memory %d "
                          "is walked though it is read-only" % i)
            for o in self.units:
                ctx.check(o[:2] != u[:2], "order", lambda: "%s%d tested "
                          "through two maps at a time" % (k, i))
            g = {"hw": self.ref_hw, "bash": self.ref_bash,
                 "walk": self.ref_walk}[job](i, m)
            self.visits[u] = self.visits.get(u, 0) + 1
            self.units[u] = [g, next(g), job]
            ctx.cov("unit_" + job)
        g, want, job = self.units[u]
        got = [it.kind, x, part]
        if it.kind == "W":
            got.append(it.data & self.mask(k, spec, part, m))
            if (k, i) in self.taint:
                want = list(want[:3]) + got[3:]
        if not ok and k == "r":
            self.taint.add((k, i))      # (the mirror is anybody's guess)
            self.error(k, i, 0, 1 << 30)
        ctx.eq(got, list(want), "transfer", "%s through map %d of %s%d" % (
            job, m, k, i))
        if k == "r":
            d = self.dut[i]
            d.at(m)
            data = d.word(x, it.kind, it.data) if ok else 0
        else:
            data = self.cell(i, x, part, self.plan["w"][m] * 8, it) \
                if ok else 0
        ctx.rec(job, k, i, m, x, part, it.kind, it.data, data, ok)
        ctx.state(k, i, job, data)
        try:
            self.units[u][1] = g.send((data, ok))
        except StopIteration:
            del self.units[u]
        return data, ok

    def mask(self, k, spec, part, m):
        """The bits of a transfer that carry data."""
        ws = 8 * self.plan["w"][m]
        if k == "m":
            return (1 << min(ws, spec["nbits"] - part * ws)) - 1
        return (1 << ws) - 1

    def cell(self, i, x, part, ws, it):
        m = self.plan["mems"][i]
        lo = part * ws
        mask = (1 << min(ws, m["nbits"] - lo)) - 1
        s = self.store[i]
        to = x
        for f in m["faults"]:
            if f[0] == "alias" and f[1] == x:
                to = f[2]
        if it.kind == "W" and m["acc"] == "RW" and ["deaf", x] not in m[
                "faults"]:
            s[to] = s[to] & ~(mask << lo) | (it.data & mask) << lo
        for f in m["faults"]:
            if f[0] == "cell" and f[1] == to:
                s[to] = s[to] & ~(1 << f[2]) | f[3] << f[2]
        return (s[to] >> lo) & mask

    # -- reference --------------------------------------------------------
    def error(self, k, i, lo, hi=None):
        e = self.errs.setdefault((k, i), [0, 0])
        e[0] += 0 if (k, i) in self.taint and e[0] else lo
        e[1] += lo if hi is None else hi
        Cur.ctx.cov("deviation_" + k)

    def words(self, d, kind, value):
        """The transfers of one register access: (value, ok)."""
        got = 0
        for j in range(d.n):
            w = (kind, j, 0)
            if kind == "W":
                w += ((value >> (j * d.ws)) & ((1 << d.ws) - 1),)
            data, ok = yield w
            if not ok:
                return 0, False
            got |= data << (j * d.ws)
        return got, True

    def ref_hw(self, i, m):
        d = self.dut[i]
        d.at(m)
        v, ok = yield from self.words(d, "R", 0)
        d.at(m)
        if not ok:
            self.error("r", i, 1)
            return
        if (v ^ d.mir) & d.cmp_mask():
            self.error("r", i, 2 if self.plan["con"] else 1)
        d.predict("R", v)

    def ref_bash(self, i, m):
        d = self.dut[i]
        d.at(m)
        full = (1 << d.nbits) - 1
        dc = 0
        for f in d.fields:
            if f["vol"] or f["acc"] in WO:
                dc |= ((1 << f["size"]) - 1) << f["lsb"]
        for k in range(-(-d.nbits // 8) * 8):
            if (dc >> k) & 1:
                continue
            for _ in range(2):
                d.at(m)
                _, ok = yield from self.words(d, "W", (d.mir ^ 1 << k) & full)
                d.at(m)
                if ok:
                    d.predict("W", (d.mir ^ 1 << k) & full)
                else:
                    self.error("r", i, 1)
                exp = d.mir
                v, ok = yield from self.words(d, "R", 0)
                d.at(m)
                if ok:
                    d.predict("R", v)
                    if (v ^ exp) & ~dc:
                        self.error("r", i, 2 if self.plan["con"] else 1)
                else:
                    self.error("r", i, 1, 2)

    def ref_walk(self, i, m):
        p = self.plan["mems"][i]
        per = -(-((p["nbits"] + 7) // 8) // self.plan["w"][m])
        ws = 8 * self.plan["w"][m]
        full = (1 << p["nbits"]) - 1

        def access(kind, x, v):
            got = 0
            for j in range(per):
                w = (kind, x, j)
                if kind == "W":
                    w += ((v & full) >> (j * ws) & ((1 << ws) - 1),)
                data, ok = yield w
                if not ok:
                    self.error("m", i, 1)
                    return
                got |= data << (j * ws)
            if kind == "R" and got != v & full:
                self.error("m", i, 1)

        for x in range(p["size"]):
            yield from access("W", x, ~x)
            if x:
                yield from access("R", x - 1, ~(x - 1))
                yield from access("W", x - 1, x - 1)
        yield from access("R", p["size"] - 1, ~(p["size"] - 1))

    # -- what takes part --------------------------------------------------
    def inside(self, b, top):
        while b != top and b > 0:
            b = self.plan["blocks"][b]["par"]
        return b == top

    def find_job(self, b):
        for top, job in self.job.items():
            if self.inside(b, top):
                return job[0]
        return None

    def excluded(self, k, i, job):
        what = {"NO_REG_TESTS", OFF[job]}
        if job == "walk":
            what.add("NO_MEM_TESTS")
        b = self.plan["regs" if k == "r" else "mems"][i]["blk"]
        top = [t for t in self.job if self.inside(b, t)][0]
        items = [(k, i)]
        while True:
            items.append(("b", b))
            if b == top:
                break
            b = self.plan["blocks"][b]["par"]
        return any(it + (w,) in self.off for it in items for w in what)

    def walks(self, i, m):
        x = self.plan["mems"][i]
        return x["acc"] == "RW" and (len(x["maps"]) == 1     # (not shared)
                                     or x["maps"][str(m)] == "RW")

    # -- clients ----------------------------------------------------------
    async def main(self, test, phase):
        ctx = Cur.ctx
        ts = [ctx.spawn(self.client(c)) for c in self.plan["clients"]]
        other = ctx.spawn(self.disturb()) if self.plan["noise"] else None
        for t in ts:
            await t
        self.over = True
        if other is not None:
            await other

    async def disturb(self):
        while not self.over:
            for k, m, v, dt in self.plan["noise"]:
                await Cur.ctx.delay(dt)
                st, out = [], []
                if k == "w":
                    await self.noise.write(st, v, UVM_FRONTDOOR,
                                           self.maps[0][m])
                else:
                    await self.noise.read(st, out, UVM_FRONTDOOR,
                                          self.maps[0][m])
                Cur.ctx.eq(st[-1], UVM_IS_OK, "noise", "status")
            await Cur.ctx.delay(5)

    async def reset(self, seq, blk):
        """A built-in test begins: the device is reset."""
        b = self.blk.index(blk)
        job = [j for t, j in self.job.items() if t == b][0]
        job[0] = KINDS[type(seq)]
        await Cur.ctx.delay(job[1])
        self.begin(b)

    def begin(self, b):
        for i, r in enumerate(self.plan["regs"]):
            if self.inside(r["blk"], b):
                self.dut[i].hard()
                if not self.plan["pred"]:   # (it has seen half an access)
                    self.taint.discard(("r", i))
        self.visits = {u: v for u, v in self.visits.items()
                       if not self.inside(self.spec(u)["blk"], b)}
        self.job[b][2].append(self.job[b][0])

    def spec(self, u):
        return self.plan["regs" if u[0] == "r" else "mems"][u[1]]

    def complete(self, b, job):
        """The test has seen everything it should."""
        ctx = Cur.ctx
        for k, items in (("r", self.plan["regs"]), ("m", self.plan["mems"])):
            if (job == "walk") != (k == "m"):
                continue
            for i, x in enumerate(items):
                if not self.inside(x["blk"], b) or self.excluded(k, i, job):
                    continue
                for m in x["maps"]:
                    u = (k, i, int(m))
                    if k == "m" and not self.walks(i, int(m)):
                        continue
                    ctx.check(u not in self.units, "incomplete", lambda:
                              "%s of %s%d through map %s ended early" % (
                                  job, k, i, m))
                    if job == "bash" and not self.bashable(x):
                        continue
                    ctx.check(self.visits.get(u, 0) > 0, "missed", lambda:
                              "%s of block %d left out %s%d through map %s"
                              % (job, b, k, i, m))
        ctx.cov("done_" + job)

    def bashable(self, x):
        dc = 0
        for f in x["fields"]:
            if f["vol"] or f["acc"] in WO:
                dc |= ((1 << f["size"]) - 1) << f["lsb"]
        return dc != (1 << -(-x["nbits"] // 8) * 8) - 1

    async def client(self, c):
        ctx, b = Cur.ctx, c["blk"]
        for kind, only, dt in c["tests"]:
            await ctx.delay(dt)
            seen = []
            self.job[b] = [None, dt, seen]
            if kind == "all":
                s = UVMRegMemBuiltInSeq("all")
                if only:
                    s.tests = BITS[only]
                want = []
                for t in ("hw", "bash", "walk"):
                    if only in ("", t) and not any(
                            ("b", b, w) in self.off
                            for w in ("NO_REG_TESTS", OFF[t])):
                        want.append(t)
            else:
                s = {"hw": HW, "bash": Bash, "walk": Walk}[kind](kind)
                want = [kind]
            s.model = self.blk[b]
            self.done = len(seen)
            await s.start(None)
            ctx.eq(seen, want, "tests", "tests run on block %d" % b)
            if seen:
                self.complete(b, seen[-1])
            del self.job[b]
            self.compare()

    def compare(self):
        """The reports name exactly what deviates."""
        ctx = Cur.ctx
        bad = [s for s in ctx.messages if s.startswith("UVM_ERROR")]
        total = [0, 0]
        for k, l in (("r", self.regs), ("m", self.mems)):
            for i, x in enumerate(l):
                if self.running(k, i):
                    continue
                name = '"' + x.get_full_name() + ('"' if k == "r" else "[")
                n = sum(name in s for s in bad)
                lo, hi = self.errs.get((k, i), [0, 0])
                ctx.check(lo <= n <= hi, "reports", lambda:
                          "%d errors reported for %s, expected %d to %d: %r"
                          % (n, name, lo, hi, [s[-200:] for s in bad
                                               if name in s][:3]))

    def running(self, k, i):
        return self.find_job(self.spec((k, i))["blk"]) is not None

    def after(self, ctx, plan):
        lo = sum(e[0] for e in self.errs.values())
        hi = sum(e[1] for e in self.errs.values())
        n = sev_count(UVM_ERROR)
        if plan["pred"] and any(f[0] == "err" for r in plan["regs"]
                                for f in r["faults"]):
            hi += len(self.bus)         # (predictors left with half accesses)
        ctx.check(lo <= n <= hi, "reports", lambda: "%d errors in all, "
                  "expected %d to %d" % (n, lo, hi))
        for r in plan["regs"] + plan["mems"]:
            for f in r["faults"]:
                ctx.fault(f[0])
