"""Address maps that change at run time: registers and whole sub-maps are
moved, unmapped and mapped again between the accesses, lookups and
predictions of several clients."""
from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario, root, rserver
from uvm.comps.uvm_driver import UVMDriver
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_model import *
from uvm.reg.uvm_reg_predictor import UVMRegPredictor
from uvm.seq.uvm_sequencer import UVMSequencer
from scenarios.regs import Adapter, BusItem

WIN, SUB = 12, 4            # slots per block, sub-map windows per map


class Drv(UVMDriver):
    async def run_phase(self, phase):
        await Cur.scn.drive(self, self.m)


class AddrMap(UvmScenario):
    name = "address_map"
    max_steps = 60000

    # -- plan -------------------------------------------------------------
    def gen(self, rng, tier):
        big = tier != "quick"
        nb = rng.choice([1, 2, 4])
        blocks = [-1]
        deep = rng.random() < 0.5
        for _ in range(rng.choice([0, 0, 1, 2, 2, 3])):
            blocks.append(len(blocks) - 1 if deep
                          else rng.randrange(len(blocks)))
        nmaps = rng.choice([1, 1, 2])
        regs = []
        pair = rng.random() < 0.4
        width = rng.choice([8, 16, 32, 64])
        for _ in range(rng.choice([1, 2, 3, 4])):
            regs.append({"blk": len(blocks) - 1 if pair or rng.random() < 0.3
                         else rng.randrange(len(blocks)),
                         "nbits": width if pair
                         else rng.choice([8, 8, 16, 32, 64]),
                         "acc": rng.choice(["RO", "WO"] if pair else
                                           ["RW", "RW", "RO", "WO"]),
                         "in": rng.choice([[1, 1], [1, 1], [1, 0], [0, 1]])})
        plan = {"nb": nb, "blocks": blocks, "nmaps": nmaps, "regs": regs,
                "base": rng.choice([0, 0, 0x1000]),
                "byte": rng.random() < 0.7,
                "end": [rng.random() < 0.3 for _ in blocks],
                "slots": rng.sample(range(WIN), len(regs)),
                "share": pair or rng.random() < 0.3,
                "wins": [rng.randrange(SUB) for _ in blocks],
                "lat": [rng.choice([0, 0, 1, 2, 5, -1, -2])
                        for _ in range(rng.randint(1, 6))],
                "clients": []}
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            plan["clients"].append([[
                rng.choice(["mv", "mv", "un", "sub", "addr", "look", "w", "w",
                            "r", "r", "obs", "obs"]),
                rng.randrange(60), rng.randrange(nmaps), rng.randrange(60),
                rng.getrandbits(64), rng.choice([0, 0, 0, 1, 2, 3, -1, -2])]
                for _ in range(rng.randint(2, 24 if big else 12))])
        return plan

    def valid(self, plan):
        n = len(plan["regs"])
        return (plan["blocks"] and plan["blocks"][0] == -1
                and all(0 <= p < i for i, p in enumerate(plan["blocks"]) if i)
                and len(plan["end"]) == len(plan["wins"])
                == len(plan["blocks"])
                and n and len(plan["slots"]) == n
                and len(set(plan["slots"])) == n
                and all(0 <= s < WIN for s in plan["slots"])
                and all(0 <= w < SUB for w in plan["wins"])
                and plan["nb"] in (1, 2, 4) and plan["nmaps"] in (1, 2)
                and all(r["blk"] < len(plan["blocks"]) and len(r["in"]) == 2
                        and any(r["in"]) and r["nbits"] in (8, 16, 32, 64)
                        for r in plan["regs"])
                and plan["lat"] and plan["clients"]
                and all(o[2] < plan["nmaps"]
                        for c in plan["clients"] for o in c))

    # -- layout -----------------------------------------------------------
    def mult(self):
        return self.plan["nb"] if self.plan["byte"] else 1

    def words(self, i):
        nbytes = self.plan["regs"][i]["nbits"] // 8
        return -(-nbytes // self.plan["nb"])

    def slot(self, s):
        return s * 8 * self.mult()

    def window(self, b, w):
        """Where a sub-map can go; each has a room of its own."""
        span = 0x1000 * 16 ** self.depth(b)
        return span * SUB * b + span * w

    def depth(self, b):
        """Levels below."""
        return max([1 + self.depth(c) for c, p in
                    enumerate(self.plan["blocks"]) if p == b] or [0])

    def base(self, b, m):
        par = self.plan["blocks"][b]
        if par < 0:
            return self.plan["base"] if m == 0 else 0
        return self.base(par, m) + self.sub[b, m]

    def addrs(self, i, m):
        """Addresses of the words of a register, least significant first."""
        off = self.off[i, m]
        if off is None:
            return None
        b = self.plan["regs"][i]["blk"]
        n = self.words(i)
        a = [self.base(b, m) + off + k * self.mult() for k in range(n)]
        return a[::-1] if self.plan["end"][b] else a

    def maps_of(self, i):
        r = self.plan["regs"][i]
        k = [m for m in range(self.plan["nmaps"]) if r["in"][m]]
        return k or [0]

    def who(self, m, addr, read):
        """The register that answers at an address."""
        at = [i for i in range(len(self.plan["regs"])) if (i, m) in self.off
              and addr in (self.addrs(i, m) or ())]
        if len(at) < 2:
            return at[0] if at else None
        for i in at:
            if self.plan["regs"][i]["acc"] == ("RO" if read else "WO"):
                return i

    def free(self, i, m, s):
        """May the register go to this slot?"""
        r = self.plan["regs"][i]
        for j, x in enumerate(self.plan["regs"]):
            if j == i or x["blk"] != r["blk"] or (j, m) not in self.off:
                continue
            if self.off[j, m] == self.slot(s):
                others = [k for k in range(len(self.plan["regs"]))
                          if k not in (i, j) and (k, m) in self.off
                          and self.plan["regs"][k]["blk"] == r["blk"]
                          and self.off[k, m] == self.slot(s)]
                if others or sorted([r["acc"], x["acc"]]) != ["RO", "WO"] \
                        or r["nbits"] != x["nbits"]:
                    return False
        return True

    # -- bench ------------------------------------------------------------
    def build(self, test):
        p = self.plan
        Cur.ctx.nontrivial = True
        root().set_report_verbosity_level(UVM_LOW)
        self.warned = 0
        self.nlat = 0
        self.over = False
        self.blk, self.maps, self.sub, self.off = [], [], {}, {}
        self.store, self.inflight, self.past = {}, {}, {}
        self.seen = [set() for _ in range(p["nmaps"])]
        for b, par in enumerate(p["blocks"]):
            blk = UVMRegBlock("b%d" % b)
            blk.configure(self.blk[par] if b else None, "")
            end = UVM_BIG_ENDIAN if p["end"][b] else UVM_LITTLE_ENDIAN
            ms = [blk.create_map("m%d" % m, p["base"] if m == 0 and not b
                                 else 0, p["nb"], end, p["byte"])
                  for m in range(p["nmaps"])]
            blk.default_map = ms[0]
            self.blk.append(blk)
            self.maps.append(ms)
        self.regs, self.mir = [], []
        for i, r in enumerate(p["regs"]):
            rg = UVMReg("r%d" % i, r["nbits"])
            rg.configure(self.blk[r["blk"]], None, "")
            UVMRegField("f").configure(rg, r["nbits"], 0, r["acc"], False, 0,
                                       True, True, False)
            self.regs.append(rg)
            self.mir.append(0)
            for m in self.maps_of(i):
                s = p["slots"][i]
                self.off[i, m] = None
                if p["share"]:
                    s = next((x for x in p["slots"] if self.free(i, m, x)
                              and any(self.off.get((j, m)) == self.slot(x)
                                      and p["regs"][j]["blk"] == r["blk"]
                                      for j in range(i))), s)
                self.maps[r["blk"]][m].add_reg(rg, self.slot(s), r["acc"])
                self.off[i, m] = self.slot(s)
        for b, par in enumerate(p["blocks"]):
            if b:
                for m in range(p["nmaps"]):
                    self.sub[b, m] = self.window(b, p["wins"][b])
                    self.maps[par][m].add_submap(self.maps[b][m],
                                                 self.sub[b, m])
        self.blk[0].lock_model()
        self.blk[0].reset()
        self.ad = Adapter("ad")
        self.sqrs, self.drvs, self.preds = [], [], []
        for m in range(p["nmaps"]):
            self.sqrs.append(UVMSequencer("sqr%d" % m, test))
            d = Drv("drv%d" % m, test)
            d.m = m
            self.drvs.append(d)
            pr = UVMRegPredictor("pred%d" % m, test)
            pr.map, pr.adapter = self.maps[0][m], self.ad
            self.preds.append(pr)
        self.mark()

    def connect(self, test):
        for m, d in enumerate(self.drvs):
            d.seq_item_port.connect(self.sqrs[m].seq_item_export)
            self.maps[0][m].set_sequencer(self.sqrs[m], self.ad)
            self.maps[0][m].set_auto_predict(1)
        for ms in self.maps:
            for x in ms:
                x.set_check_on_read(False)

    async def wait(self):
        self.nlat += 1
        await Cur.ctx.delay(self.plan["lat"][self.nlat
                                             % len(self.plan["lat"])])

    async def drive(self, drv, m):
        port = drv.seq_item_port
        while True:
            q = []
            await port.get_next_item(q)
            it = q[0]
            await self.wait()
            k = m, it.addr
            Cur.ctx.check((m, it.kind, it.addr) in self.due(), "stray",
                          lambda: "%s of address 0x%x in map %d is not part "
                          "of any access" % (it.kind, it.addr, m))
            self.hist.append((m, it.kind, it.addr))
            mask = (1 << 8 * self.plan["nb"]) - 1
            if it.kind == "W":
                self.store[k] = it.data & mask
            else:
                it.data = self.store.get(k, 0)
            it.ok = True
            await self.wait()
            port.item_done()

    def due(self):
        return {(o["m"], o["way"], a) for o in self.inflight.values()
                for lay in o["lays"] for a in lay}

    # -- the map ----------------------------------------------------------
    def mark(self):
        """Accesses under way may still use the layout as it is now."""
        for i, o in self.inflight.items():
            a = self.addrs(i, o["m"])
            if a is not None and a not in o["lays"]:
                o["lays"].append(a)
        for i, m in self.off:
            a = self.addrs(i, m) or ()
            self.seen[m].update(a)
            self.past.setdefault((i, m), set()).update(a)

    def sweep(self):
        """Every address that ever meant something is looked up."""
        ctx = Cur.ctx
        for m in range(self.plan["nmaps"]):
            for a in sorted(self.seen[m]):
                for read in (True, False):
                    w = self.who(m, a, read)
                    g = self.maps[0][m].get_reg_by_offset(a, read)
                    ctx.check(g is (None if w is None else self.regs[w]),
                              "lookup", lambda: "at 0x%x in map %d for a %s: "
                              "found %s, expected %s" % (
                                  a, m, "read" if read else "write",
                                  g and g.get_name(), "r%s" % w))

    async def op(self, o):
        ctx = Cur.ctx
        p = self.plan
        kind, x, m, y, v, _ = o
        i = x % len(p["regs"])
        r = p["regs"][i]
        ms = self.maps_of(i)
        m = ms[m % len(ms)]
        rg = self.regs[i]
        mp = self.maps[r["blk"]][m]
        if kind in ("mv", "un"):
            if kind == "un":
                if i in self.inflight:
                    return
                rg.set_offset(mp, 0, 1)
                self.off[i, m] = None
                ctx.cov("unmapped")
            else:
                s = y % WIN
                if not self.free(i, m, s):
                    return
                ctx.cov("moved")
                if self.off[i, m] is None:
                    ctx.cov("mapped_again")
                rg.set_offset(mp, self.slot(s))
                self.off[i, m] = self.slot(s)
            self.mark()
            self.sweep()
            ctx.rec(kind, i, m, str(self.off[i, m]))
        elif kind == "sub":
            b = x % len(p["blocks"])
            if b == 0:
                return
            m = o[2]
            self.sub[b, m] = self.window(b, y % SUB)
            self.maps[p["blocks"][b]][m].set_submap_offset(
                self.maps[b][m], self.sub[b, m])
            ctx.eq(self.maps[p["blocks"][b]][m].get_submap_offset(
                self.maps[b][m]), self.sub[b, m], "offset", "of a sub-map")
            ctx.cov("submap_moved")
            self.mark()
            self.sweep()
            ctx.rec(kind, b, m, self.sub[b, m])
        elif kind == "addr":
            a = self.addrs(i, m)
            got = []
            rg.get_addresses(mp, got)
            ctx.eq(got, a or [], "addresses", "addresses of register %d in "
                   "map %d" % (i, m))
            ctx.eq(rg.get_offset(mp), -1 if a is None else self.off[i, m],
                   "offset", "offset of register %d in map %d" % (i, m))
            if a is not None:
                ctx.eq(rg.get_address(mp), a[0], "addresses",
                       "address of register %d in map %d" % (i, m))
            else:
                self.warned += 2
        elif kind == "look":
            self.sweep()
        elif kind in ("w", "r"):
            await self.access(kind, i, m, v)
        else:
            self.observe(m, y, v)

    async def access(self, kind, i, m, v):
        ctx = Cur.ctx
        r = self.plan["regs"][i]
        rg = self.regs[i]
        if self.off[i, m] is None or i in self.inflight or \
                r["acc"] == ("RO" if kind == "w" else "WO"):
            return
        o = {"m": m, "way": kind.upper(), "lays": [self.addrs(i, m)]}
        self.inflight[i] = o
        v &= (1 << r["nbits"]) - 1
        n0 = len(self.hist)
        st, got = [], []
        mp = self.maps[0][m]
        if kind == "w":
            await rg.write(st, v, UVM_FRONTDOOR, mp)
        else:
            await rg.read(st, got, UVM_FRONTDOOR, mp)
        del self.inflight[i]
        ctx.eq(st, [UVM_IS_OK], "status", "status")
        # all of it went to one place
        mine = [a for w, k, a in self.hist[n0:] if (w, k) == (m, o["way"])]
        lay = [a for a in o["lays"] if all(mine.count(w) for w in a)]
        ctx.check(bool(lay), "split", lambda:
                  "%s of register %d went to none of %r: %r" % (
                      kind, i, o["lays"], self.hist[n0:]))
        ctx.cov("accessed_while_moved" if len(o["lays"]) > 1 else "accessed")
        if kind == "r":
            self.mir[i] = got[0]
        else:
            self.mir[i] = v
        w = 8 * self.plan["nb"]
        vals = [sum(self.store.get((m, a), 0) << w * k
                    for k, a in enumerate(x)) & (1 << r["nbits"]) - 1
                for x in lay]
        x = v if kind == "w" else got[0]
        shared = any(len([j for j in range(len(self.plan["regs"]))
                          if a in self.past.get((j, m), ())]) > 1
                     for y in lay for a in y)
        if not shared:
            ctx.check(x in vals, "value", lambda:
                      "%s of register %d: 0x%x, the device has %s" % (
                          kind, i, x, [hex(z) for z in vals]))
        ctx.eq(rg.get_mirrored_value(), x, "mirror",
               "mirror of register %d after %s" % (i, kind))
        ctx.rec(kind, i, m, x)

    def observe(self, m, y, v):
        """A foreign master's transfer, seen by the predictor."""
        ctx = Cur.ctx
        kind = "R" if y & 1 else "W"
        s = sorted(self.seen[m])
        if not s:
            return
        a = s[y // 2 % len(s)]
        i = self.who(m, a, kind == "R")
        words = [a]
        if i is not None:
            if self.inflight.get(i):
                return
            words = self.addrs(i, m)
        b = 8 * self.plan["nb"]
        mask = (1 << b) - 1
        for k, w in enumerate(words):
            it = BusItem()
            it.kind, it.addr, it.be = kind, w, -1
            it.data = v >> b * k & mask
            it.ok = True
            self.preds[m].write(it)
        if i is None:
            ctx.cov("observed_nothing")
        else:
            ctx.cov("observed")
            r = self.plan["regs"][i]
            ok = r["acc"] == "RW" or (r["acc"] == "RO") == (kind == "R")
            if ok:
                self.mir[i] = v & (1 << r["nbits"]) - 1
        for j, rg in enumerate(self.regs):
            if j not in self.inflight:
                ctx.eq(rg.get_mirrored_value(), self.mir[j], "mirror",
                       "mirror of register %d after %s of 0x%x was observed"
                       % (j, kind, a))
        ctx.rec("obs", m, a, str(i))

    async def client(self, ops):
        for o in ops:
            await Cur.ctx.delay(o[5])
            await self.op(o)

    async def main(self, test, phase):
        ctx = Cur.ctx
        self.hist = []
        self.sweep()
        ts = [ctx.spawn(self.client(ops)) for ops in self.plan["clients"]]
        for t in ts:
            await t.join()
        self.over = True
        self.sweep()
        ctx.state(tuple(sorted((k, str(v)) for k, v in self.off.items())),
                  tuple(sorted(self.sub.items())), tuple(self.mir))

    def after(self, ctx, plan):
        ctx.eq((sev_count(UVM_FATAL), sev_count(UVM_ERROR),
                rserver().get_id_count("RegModel")), (0, 0, self.warned),
               "reports", "fatal messages, errors and other messages of the "
               "model")
