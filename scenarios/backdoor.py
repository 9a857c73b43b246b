"""Backdoor accesses of registers and memories: through HDL paths with slices,
duplicates and design abstractions, and through user-defined backdoors that
take time and fail; mixed with front-door accesses and with a device that
changes by itself."""
import re

from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario
from uvm.base.uvm_callback import UVMCallbacks
from uvm.base.uvm_resource_db import UVMResourceDb
from uvm.dpi.uvm_hdl import uvm_hdl
from uvm.reg.uvm_mem import UVMMem
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_reg_backdoor import UVMRegBackdoor
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_cbs import UVMRegCbs
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_map import UVMRegMap
from uvm.reg.uvm_reg_model import *
from uvm.reg.uvm_reg_sequence import UVMRegFrontdoor
from uvm.reg.sequences.uvm_mem_access_seq import UVMMemAccessSeq
from uvm.reg.sequences.uvm_reg_access_seq import (UVMRegAccessSeq,
                                                  UVMRegMemAccessSeq)
from uvm.seq.uvm_sequencer import UVMSequencer
from cocotb.triggers import Timer
from scenarios.mems import OpTag

CLEAR = ("RC", "WRC", "WSRC", "W1SRC", "W0SRC")
SET = ("RS", "WRS", "WCRS", "W1CRS", "W0CRS")
WONLY = ("WO", "WOC", "WOS")
ACCS = ("RW", "RO", "WC", "WS", "W1C", "W1S", "W1T", "W0C", "W0S",
        "W0T") + CLEAR + SET + WONLY


def written(acc, cur, v, mask):
    """What a field holds after v is written to it."""
    n = ~v & mask
    return {
        "RO": cur, "RW": v, "RC": cur, "RS": cur, "WC": 0, "WS": mask,
        "WRC": v, "WRS": v, "WSRC": mask, "WCRS": 0, "W1C": cur & n,
        "W1S": cur | v, "W1T": cur ^ v, "W0C": cur & v, "W0S": cur | n,
        "W0T": cur ^ n, "W1SRC": cur | v, "W1CRS": cur & n,
        "W0SRC": cur | n, "W0CRS": cur & v, "WO": v, "WOC": 0,
        "WOS": mask}[acc]


class Leaf(object):
    """A signal of the device, as the HDL access layer sees it."""

    def __init__(self, path):
        object.__setattr__(self, "_path", path)

    def __int__(self):
        return Cur.scn.hdl_read(self._path)

    @property
    def value(self):
        return Cur.scn.hdl_read(self._path)

    @value.setter
    def value(self, v):
        Cur.scn.hdl_write(self._path, int(v))


class Node(object):
    def __init__(self, path):
        self._path = path

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        p = self._path + "." + name if self._path else name
        s = Cur.scn
        if p in s.hdl:
            return Leaf(p)
        if p in s.scopes:
            return Node(p)
        raise AttributeError(name)

    def __getitem__(self, i):
        p = "%s[%d]" % (self._path, i)
        if p not in Cur.scn.hdl:
            raise IndexError(p)
        return Leaf(p)


class BReg(UVMReg):
    idx = 0

    async def pre_write(self, rw):
        await Cur.scn.begin(self.idx, rw, "W")

    async def pre_read(self, rw):
        await Cur.scn.begin(self.idx, rw, "R")

    async def post_write(self, rw):
        await Cur.scn.finish_op(self.idx, rw)

    async def post_read(self, rw):
        await Cur.scn.finish_op(self.idx, rw)


class BMem(UVMMem):
    idx = 0


class Door(UVMRegFrontdoor):
    async def body(self):
        await Cur.scn.door(self.rw_info)


class UserBackdoor(UVMRegBackdoor):
    """What a user writes: hooks first and last, time in between."""

    async def write(self, rw):
        clear = list(rw.value)
        await self.do_pre_write(rw)
        await Cur.scn.user(self, rw, "W")
        await self.do_post_write(rw)
        rw.value[:] = clear

    async def read(self, rw):
        await self.do_pre_read(rw)
        await Cur.scn.user(self, rw, "R")
        await self.do_post_read(rw)

    async def pre_write(self, rw):
        await Cur.scn.hook("own.pre_write", rw)

    async def post_write(self, rw):
        await Cur.scn.hook("own.post_write", rw)

    async def pre_read(self, rw):
        await Cur.scn.hook("own.pre_read", rw)

    async def post_read(self, rw):
        await Cur.scn.hook("own.post_read", rw)


class Code(UVMRegCbs):
    """A callback of a user backdoor; number n encodes the data."""
    n = 0

    async def pre_write(self, rw):
        await Cur.scn.hook("cb%d.pre_write" % self.n, rw)

    async def post_write(self, rw):
        await Cur.scn.hook("cb%d.post_write" % self.n, rw)

    async def pre_read(self, rw):
        await Cur.scn.hook("cb%d.pre_read" % self.n, rw)

    async def post_read(self, rw):
        await Cur.scn.hook("cb%d.post_read" % self.n, rw)

    def encode(self, data):
        data[:] = [code(self.n, x, 1) for x in data]

    def decode(self, data):
        data[:] = [code(self.n, x, -1) for x in data]


def code(n, x, way):
    """Does not commute: 0 and 2 add, 1 flips."""
    return x ^ 0xa5 if n & 1 else (x + way * (11 + 30 * n)) & 0xff


class Backdoor(UvmScenario):
    name = "backdoor"
    max_steps = 80000

    # -- plan -------------------------------------------------------------
    def layout(self, rng, nbits, holes=False):
        """One copy: [] is a single signal, else the slices."""
        if rng.random() < 0.4:
            return []
        cuts = sorted(set(rng.randrange(1, nbits) for _ in range(
            rng.choice([0, 1, 2, 3]))))
        ends = [0] + cuts + [nbits]
        s = [[lo, hi - lo] for lo, hi in zip(ends, ends[1:])]
        if holes and len(s) > 1 and rng.random() < 0.3:
            del s[rng.randrange(len(s))]        # bits without storage
        if rng.random() < 0.5:
            s.reverse()
        return s

    def gen(self, rng, tier):
        big = tier != "quick"
        blocks = [{"par": -1, "kind": rng.choice(["RTL", "RTL", "GATES"]),
                   "RTL": ["dut"], "GATES": ["gates"],
                   "path": rng.choice("FFB-")}]
        for i in range(rng.choice([0, 0, 1, 1, 2])):
            blocks.append({
                "par": rng.randrange(len(blocks)),
                "kind": rng.choice(["RTL", "RTL", "GATES"]),
                "RTL": rng.choice([["s%d" % i], ["s%da" % i, "s%db" % i],
                                   [""]]),
                "GATES": rng.choice([["g%d" % i], ["g%da" % i, "g%db" % i]]),
                "path": rng.choice("FB--")})
        regs = []
        for _ in range(rng.choice([1, 2, 3])):
            nbits = rng.choice([8, 8, 16, 32])
            user = rng.random() < 0.3
            if user:
                nbits = 8
            cuts = sorted(set(rng.randrange(1, nbits) for _ in range(
                rng.choice([0, 0, 1, 2, 3]))))
            ends = [0] + cuts + [nbits]
            n = rng.choice([1, 1, 1, 2])
            regs.append({
                "blk": rng.randrange(len(blocks)), "nbits": nbits,
                "fields": [[lo, hi - lo, rng.choice(
                    ACCS if rng.random() < 0.6 else ("RW", "RW", "RO")),
                    rng.random() < 0.2] for lo, hi in zip(ends, ends[1:])],
                "user": user, "inherit": False,
                "RTL": [self.layout(rng, nbits, n == 1 and not user)
                        for _ in range(n)],
                "GATES": [] if rng.random() < 0.3 else
                [self.layout(rng, nbits, not user)],
                "how": rng.choice(["slice", "list", "conf"])})
        mems = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            user = rng.random() < 0.4
            nbits = 8 if user else rng.choice([4, 8, 16, 32])
            n = rng.choice([1, 1, 2])
            mems.append({
                "blk": rng.randrange(len(blocks)), "nbits": nbits,
                "size": rng.choice([1, 2, 4, 6]), "user": user,
                "acc": rng.choice(["RW", "RW", "RW", "RO"]),
                "RTL": [self.layout(rng, nbits, n == 1 and not user)
                        for _ in range(n)],
                "GATES": [] if rng.random() < 0.3 else
                [self.layout(rng, nbits, not user)]})
        plan = {"blocks": blocks, "regs": regs, "mems": mems,
                "check": rng.random() < 0.5,
                "sim": rng.choice(["Verilator", "Icarus Verilog"]),
                "cbs": rng.choice([0, 0, 1, 2, 3]),
                "fails": sorted(set(rng.randrange(12) for _ in range(
                    rng.choice([0, 0, 1, 2])))),
                "lat": [rng.choice([0, 0, 1, 2, 5, -1, -2])
                        for _ in range(rng.randint(1, 6))],
                "clients": []}
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(2, 20 if big else 9)):
                d = rng.choice([0, 0, 0, 1, 2, 3, -1, -2])
                if mems and rng.random() < 0.4:
                    ops.append([rng.choice(["mw", "mr", "bw", "br", "po",
                                            "pe"]),
                                rng.randrange(len(mems)),
                                rng.getrandbits(40), rng.choice("BBFD"), d])
                else:
                    ops.append([rng.choice(["w", "w", "r", "r", "m", "c",
                                            "u", "hw", "h1"]),
                                rng.randrange(len(regs)),
                                rng.getrandbits(32), rng.choice("BBBFD"), d])
            plan["clients"].append(ops)
        return plan

    def bits(self, x, c):
        return sorted(b for s in c or [[0, x["nbits"]]]
                      for b in range(s[0], s[0] + s[1]))

    def valid(self, plan):
        n = len(plan["blocks"])
        for x in plan["regs"] + plan["mems"]:
            for k in ("RTL", "GATES"):
                b = [self.bits(x, c) for c in x[k]]
                if any(y != b[0] or len(set(y)) != len(y) or x["user"]
                       and len(y) != x["nbits"] for y in b):
                    return False
        return (n and plan["blocks"][0]["par"] == -1 and plan["clients"]
                and plan["lat"]
                and all(0 <= b["par"] < i for i, b in
                        enumerate(plan["blocks"]) if i)
                and all(b["RTL"] and b["GATES"] for b in plan["blocks"])
                and plan["blocks"][0]["RTL"] == ["dut"]
                and plan["blocks"][0]["GATES"] == ["gates"]
                and all(r["blk"] < n and r["fields"] and r["RTL"]
                        and r["nbits"] in (8, 16, 32)
                        and (not r["user"] or r["nbits"] == 8)
                        and sum(f[1] for f in r["fields"]) == r["nbits"]
                        and r["fields"][0][0] == 0
                        and all(a[0] + a[1] == b[0] for a, b in
                                zip(r["fields"], r["fields"][1:]))
                        for r in plan["regs"])
                and all(m["blk"] < n and m["RTL"] and m["size"] > 0
                        and m["nbits"] in (4, 8, 16, 32)
                        and (not m["user"] or m["nbits"] == 8)
                        for m in plan["mems"])
                and all(len(s) == 2 and s[1] > 0 and s[0] + s[1] <= x["nbits"]
                        for x in plan["regs"] + plan["mems"]
                        for k in ("RTL", "GATES") for c in x[k] for s in c)
                and all(o[1] < len(plan["mems" if o[0] in (
                    "mw", "mr", "bw", "br", "po", "pe") else "regs"])
                        for c in plan["clients"] for o in c))

    # -- bench ------------------------------------------------------------
    def prefixes(self, b, kind):
        blk = self.plan["blocks"][b]
        if blk["par"] < 0:
            return list(blk[kind])
        return [p + "." + x if x else p for x in blk[kind]
                for p in self.prefixes(blk["par"], kind)]

    def place(self, tag, i, x, size):
        """Give the storage of an element its names; the copies of each
        abstraction as [(path, offset, bits)]."""
        out = {}
        for kind in ("RTL", "GATES"):
            out[kind] = []
            for c, lay in enumerate(x[kind]):
                for p in self.prefixes(x["blk"], kind):
                    copy = []
                    for k, (off, sz) in enumerate(lay or [[0, x["nbits"]]]):
                        path = "%s.%s%d_%d_%d" % (p, tag, i, c, k)
                        copy.append((path, off, sz))
                        names = [path] if size is None else [
                            "%s[%d]" % (path, a) for a in range(size)]
                        if size is not None:
                            self.scopes.add(path)
                        for n in names:
                            self.hdl[n] = 0
                            self.owner[n] = (tag, i)
                        s = path.split(".")
                        for d in range(1, len(s)):
                            self.scopes.add(".".join(s[:d]))
                    out[kind].append(copy)
        return out

    def name_paths(self, el, tag, i, x):
        for kind in ("RTL", "GATES"):
            for c, lay in enumerate(x[kind]):
                s = [["%s%d_%d_%d" % (tag, i, c, k)] + (o or [-1, -1])
                     for k, o in enumerate(lay or [[]])]
                if x.get("how") == "list":
                    el.add_hdl_path(s, kind)
                    continue
                for k, (n, off, sz) in enumerate(s):
                    el.add_hdl_path_slice(n, off, sz, k == 0, kind)

    def build(self, test):
        p = self.plan
        ctx = Cur.ctx
        ctx.nontrivial = True
        root().set_report_verbosity_level(UVM_LOW)
        self.serial = self.errors = self.nuser = self.nwait = 0
        self.over = False
        self.hdl, self.owner, self.scopes = {}, {}, set()
        self.blk = []
        for i, b in enumerate(p["blocks"]):
            blk = UVMRegBlock("blk%d" % i)
            if i:
                blk.configure(self.blk[b["par"]], b["RTL"][0])
                for x in b["RTL"][1:]:
                    blk.add_hdl_path(x)
                for x in b["GATES"]:
                    blk.add_hdl_path(x, "GATES")
            else:
                blk.configure(None, "")
                blk.set_hdl_path_root("dut")
                blk.set_hdl_path_root("gates", "GATES")
            blk.set_default_hdl_path(b["kind"])
            if b["path"] != "-":
                blk.default_path = {"F": UVM_FRONTDOOR,
                                    "B": UVM_BACKDOOR}[b["path"]]
            self.blk.append(blk)
        self.maps = []
        for i, b in enumerate(self.blk):
            b.default_map = b.create_map("map", 0, 4, UVM_LITTLE_ENDIAN)
            self.maps.append([b.default_map])
            if i:
                self.maps[p["blocks"][i]["par"]][0].add_submap(
                    b.default_map, 0x10000 << 4 * i)
            if "two" in p and p["two"][i]:
                # another bus that reaches the elements of this block
                par = p["blocks"][i]["par"]
                if i and len(self.maps[par]) < 2:
                    continue
                self.maps[i].append(b.create_map("map2", 0, 4,
                                                 UVM_LITTLE_ENDIAN))
                if i:
                    self.maps[par][1].add_submap(self.maps[i][1],
                                                 0x10000 << 4 * i)
        self.bd = UserBackdoor("bd")
        for n in range(p["cbs"]):
            cb = Code("cb%d" % n)
            cb.n = n
            UVMCallbacks.add(self.bd, cb)
        self.regs, self.store, self.mir, self.active = [], [], [], []
        for i, r in enumerate(p["regs"]):
            rg = BReg("r%d" % i, r["nbits"])
            rg.idx = i
            one = r["how"] == "conf" and not r["RTL"][0]
            rg.configure(self.blk[r["blk"]], None, "r%d_0_0" % i if one
                         else "")
            for j, (lo, n, acc, vol) in enumerate(r["fields"]):
                UVMRegField("f%d" % j).configure(
                    rg, n, lo, acc, vol, self.reset_value(i) >> lo
                    & (1 << n) - 1, True, True, False)
            if one:
                self.name_paths(rg, "r", i, dict(r, RTL=[]))
                for c, lay in list(enumerate(r["RTL"]))[1:]:
                    for k, o in enumerate(lay or [[-1, -1]]):
                        rg.add_hdl_path_slice("r%d_%d_%d" % (i, c, k), o[0],
                                              o[1], k == 0)
            else:
                self.name_paths(rg, "r", i, r)
            if r["user"]:
                rg.m_backdoor = self.bd
            for m in self.maps[r["blk"]]:
                m.add_reg(rg, 4 * i, "RW", False, Door("door"))
            self.regs.append(rg)
            self.store.append(self.place("r", i, r, None))
            self.mir.append(self.reset_value(i))
            self.active.append(None)
        self.mems, self.mstore = [], []
        self.hist, self.pend = {}, []
        for i, m in enumerate(p["mems"]):
            mem = BMem("m%d" % i, m["size"], m["nbits"], m["acc"])
            mem.idx = i
            mem.configure(self.blk[m["blk"]], "")
            self.name_paths(mem, "m", i, m)
            if m["user"]:
                mem.set_backdoor(self.bd)
            for mp in self.maps[m["blk"]]:
                mp.add_mem(mem, 0x100 * (i + 1), m["acc"], False,
                           Door("door"))
            self.mems.append(mem)
            self.mstore.append(self.place("m", i, m, m["size"]))
            for kind in ("RTL", "GATES"):
                for a in range(m["size"]):
                    self.hist[i, a, kind] = [self.cell_of(i, a, kind)[0]]
        self.blk[0].lock_model()
        for b in self.blk:
            b.reset()
        self.sqr = UVMSequencer("sqr", test)

    def connect(self, test):
        for m in self.maps[0]:
            m.set_sequencer(self.sqr, None)
            m.set_auto_predict(1)
            m.set_check_on_read(False)
        UVMRegMap.backdoor().set_check_on_read(self.plan["check"])
        uvm_hdl.set_dut(Node(""))
        uvm_hdl.SIM_NAME = self.plan["sim"]

    def reset_value(self, i):
        return 0

    # -- storage ----------------------------------------------------------
    def hdl_read(self, path):
        o = self.whose(path)
        if o is not None:
            self.snap(o)
            o["log"].append(("R", path))
        return self.hdl[path]

    def hdl_write(self, path, v):
        o = self.whose(path)
        if o is not None:
            self.snap(o)
            o["log"].append(("W", path, v))
        else:
            self.mem_write(path, v)
        self.hdl[path] = v

    def whose(self, path):
        """The access a signal of a register is touched for."""
        ctx = Cur.ctx
        tag, i = self.owner[path]
        if tag == "m":
            return None
        o = self.active[i]
        ctx.check(o is not None and o["way"] == "B", "stray", lambda:
                  "%s is accessed while %s" % (path, "no access is going on"
                                               if o is None else o["what"]))
        ctx.check(not self.plan["regs"][i]["user"], "stray", lambda:
                  "%s is accessed though register %d has a user backdoor" % (
                      path, i))
        return o

    def snap(self, o):
        if o["snap"] is None:
            o["snap"] = self.copies(o["i"])
            o["dead"] = o["wr"] and len(set(o["snap"])) > 1

    def copies(self, i, hdl=None):
        r = self.plan["regs"][i]
        kind = self.plan["blocks"][r["blk"]]["kind"]
        return [sum(self.hdl[p] << off for p, off, _ in c)
                for c in self.store[i][kind]]

    def put(self, i, v, one=None):
        r = self.plan["regs"][i]
        kind = self.plan["blocks"][r["blk"]]["kind"]
        for n, c in enumerate(self.store[i][kind]):
            if one is None or n == one % len(self.store[i][kind]):
                for p, off, sz in c:
                    self.hdl[p] = v >> off & (1 << sz) - 1

    def kinds(self, x):
        """The copies a backdoor access of an element uses."""
        return self.kinds_of(self.plan, x)

    def kinds_of(self, plan, x):
        return x[plan["blocks"][x["blk"]]["kind"]]

    # -- user backdoor -----------------------------------------------------
    async def hook(self, what, rw):
        o = rw.extension.op
        o["ev"].append(what)
        self.nwait += 1
        await Cur.ctx.delay(self.plan["lat"][self.nwait
                                             % len(self.plan["lat"])])

    async def user(self, bd, rw, way):
        ctx = Cur.ctx
        o = rw.extension.op
        lat = self.plan["lat"]
        self.nuser += 1
        n = self.nuser
        ctx.check(not o["end"], "late", lambda:
                  "the user backdoor runs after %s ended" % o["what"])
        ctx.check(rw.element is o["el"], "element",
                  "wrong element for " + o["what"])
        await ctx.delay(lat[n % len(lat)])
        ctx.check(not o["end"], "late", lambda:
                  "%s ended while its user backdoor is at work" % o["what"])
        o["ev"].append(way)
        if n - 1 in self.plan["fails"]:
            ctx.fault("backdoor_failure")
            rw.status = UVM_NOT_OK
            o["ufail"].append(way)
            o["dead"] = o["wr"] and way == "R"
            return
        rw.status = UVM_IS_OK
        if o["mem"]:
            self.user_mem(o, rw, way)
            return
        i = o["i"]
        if way == "R":
            v = self.copies(i)
            rw.value[0] = v[0] if v else 0
            o["ulog"].append(("R", self.dec(rw.value[0])))
        else:
            o["ulog"].append(("W", self.dec(rw.value[0])))
            self.put(i, rw.value[0])
        o["held"] = self.copies(i)

    def dec(self, v):
        for n in reversed(range(self.plan["cbs"])):
            v = code(n, v, -1)
        return v

    def enc(self, v):
        for n in range(self.plan["cbs"]):
            v = code(n, v, 1)
        return v

    def events(self, way):
        cbs = ["cb%d." % n for n in range(self.plan["cbs"])]
        w = "write" if way == "W" else "read"
        return (["own.pre_" + w] + [c + "pre_" + w for c in cbs] + [way]
                + [c + "post_" + w for c in cbs] + ["own.post_" + w])

    # -- the front door ----------------------------------------------------
    async def door(self, rw):
        ctx = Cur.ctx
        o = rw.extension.op
        self.nwait += 1
        await ctx.delay(self.plan["lat"][self.nwait % len(self.plan["lat"])])
        ctx.eq(o["way"], "F", "path", "path of " + o["what"])
        o["doors"] += 1
        rw.status = UVM_IS_OK
        if o["mem"]:
            m = self.plan["mems"][o["i"]]
            for k in range(len(rw.value)):
                a = rw.offset + k
                if o["wr"]:
                    self.cell_set(o["i"], a, rw.value[k])
                else:
                    rw.value[k] = self.cell(o["i"], a)[0]
            return
        i = o["i"]
        r = self.plan["regs"][i]
        cur = self.now(i)
        o["held"] = None
        if o["wr"]:
            o["new"] = self.write_all(r, cur, rw.value[0])
        else:
            out, new = self.read_all(r, cur)
            rw.value[0] = out
            o["got"], o["new"] = out, new
        self.put(i, self.enc(o["new"]) if r["user"] else o["new"])

    def now(self, i):
        c = self.copies(i)
        v = c[0] if c else 0
        return self.dec(v) if self.plan["regs"][i]["user"] else v

    def write_all(self, r, cur, v):
        out = 0
        for lo, n, acc, _ in r["fields"]:
            m = (1 << n) - 1
            out |= written(acc, cur >> lo & m, v >> lo & m, m) << lo
        return out

    def read_all(self, r, cur):
        """What a read gives and what it leaves."""
        out = new = 0
        for lo, n, acc, _ in r["fields"]:
            m = (1 << n) - 1
            v = cur >> lo & m
            out |= (0 if acc in WONLY else v) << lo
            new |= (0 if acc in CLEAR else m if acc in SET else v) << lo
        return out, new

    # -- registers ---------------------------------------------------------
    async def begin(self, i, rw, way):
        ctx = Cur.ctx
        o = rw.extension.op
        ctx.eq((o["i"], o["mem"], "W" if o["wr"] else "R"), (i, False, way),
               "hook", "hook of " + o["what"])
        a = self.active[i]
        ctx.check(a is None or a["dead"] or a["end"], "overlap", lambda:
                  "%s starts while %s is going on" % (o["what"], a["what"]))
        self.active[i] = o
        if self.mir[i] is not None:
            ctx.eq(self.regs[i].get_mirrored_value(), self.mir[i], "mirror",
                   "mirror before " + o["what"])
        o["mir0"] = self.regs[i].get_mirrored_value()
        if o["kind"] == "u":
            o["v"] = rw.value[0]
        ctx.eq(rw.path, UVM_BACKDOOR if o["way"] == "B" else UVM_FRONTDOOR,
               "path", "path of " + o["what"])
        self.nwait += 1
        await ctx.delay(self.plan["lat"][self.nwait % len(self.plan["lat"])])
        if o["wr"]:
            ctx.eq(rw.value[0], o["v"], "value", "value of " + o["what"])

    async def finish_op(self, i, rw):
        ctx = Cur.ctx
        o = rw.extension.op
        ctx.check(self.active[i] is o, "overlap", lambda:
                  "%s ends while %s is going on" % (
                      o["what"], (self.active[i] or {}).get("what")))
        self.judge(o)
        ctx.eq(rw.status, o["st"], "status", "status of " + o["what"])
        if not o["wr"] and o["st"] == UVM_IS_OK:
            ctx.eq(rw.value[0], o["got"], "value", "value read by "
                   + o["what"])
        m = self.regs[i].get_mirrored_value()
        for lo, n, acc, ok in o["ok"]:
            k = (1 << n) - 1
            ctx.check(m >> lo & k in ok, "mirror", lambda:
                      "%s leaves 0x%x in the mirror of its %s field at %d, "
                      "possible are %r" % (o["what"], m >> lo & k, acc, lo,
                                           ok))
        self.mir[i] = m
        self.active[i] = None

    def fields(self, o, f):
        r = self.plan["regs"][o["i"]]
        o["ok"] = []
        for lo, n, acc, _ in r["fields"]:
            m = (1 << n) - 1
            o["ok"].append((lo, n, acc, sorted(set(
                x & m for x in f(lo, n, acc, m)))))

    def judge(self, o):
        """Once an access is over: what it did, and what is to be seen."""
        ctx = Cur.ctx
        i, what = o["i"], o["what"]
        r = self.plan["regs"][i]
        o["judged"] = True
        mir = o["mir0"]
        if o["way"] == "F":
            ctx.eq((o["doors"], o["log"], o["ev"]), (1, [], []), "front",
                   "front-door and backdoor actions of " + what)
            if o["wr"]:
                self.fields(o, lambda lo, n, acc, m: [
                    written(acc, mir >> lo & m, o["v"] >> lo & m, m)])
            else:
                self.fields(o, lambda lo, n, acc, m: [
                    0 if acc in CLEAR else m if acc in SET else
                    mir >> lo if acc in WONLY else o["got"] >> lo])
            return
        ctx.eq(o["doors"], 0, "front", "front-door actions of " + what)
        if r["user"]:
            cur = [v for w, v in o["ulog"] if w == "R"][:1]
            rfail = "R" in o["ufail"]
            want = [] if rfail else [cur[0]]
        else:
            ctx.check(o["snap"] is not None, "missing", lambda:
                      what + " does not access the device")
            cur = o["snap"]
            rfail = len(set(cur)) > 1
            if rfail:
                self.errors += 1
                ctx.cov("mismatch")
        if rfail:
            o["st"], o["dead"] = UVM_NOT_OK, True
            self.fields(o, lambda lo, n, acc, m: [mir >> lo])
        else:
            out, new = self.read_all(r, cur[0])
            if o["wr"]:
                new = self.write_all(r, cur[0], o["v"])
                self.fields(o, lambda lo, n, acc, m: [new >> lo])
            else:
                o["got"] = out
                self.fields(o, lambda lo, n, acc, m: [
                    out >> lo] + ([new >> lo] if acc in CLEAR + SET else
                                  [mir >> lo] if acc in WONLY else []))
        if "W" in o["ufail"]:
            o["st"] = UVM_NOT_OK
            if o["wr"]:
                self.fields(o, lambda lo, n, acc, m: [mir >> lo, new >> lo])
        mod = not rfail and (o["wr"] or new != cur[0])
        if r["user"]:
            ctx.eq(o["ev"], self.events("R") + (self.events("W") if mod
                                                else []),
                   "hooks", "steps of the user backdoor for " + what)
            ctx.eq(o["ulog"], ([("R", cur[0])] if not rfail else [])
                   + ([("W", new)] if mod and "W" not in o["ufail"] else []),
                   "user", "accesses of the user backdoor for " + what)
        else:
            wrote = {}
            for x in o["log"]:
                if x[0] == "W":
                    ctx.check(x[1] not in wrote, "twice", lambda:
                              "%s writes %s twice" % (what, x[1]))
                    wrote[x[1]] = x[2]
            kind = self.plan["blocks"][r["blk"]]["kind"]
            ctx.eq(wrote, {p: new >> off & (1 << sz) - 1
                           for c in self.store[i][kind] for p, off, sz in c}
                   if mod else {}, "deposit", "signals written by " + what)
        if not o["wr"] and o["st"] == UVM_IS_OK and self.plan["check"]:
            self.compare(r, mir, o["got"])

    def compare(self, r, exp, got):
        for lo, n, acc, vol in r["fields"]:
            m = (1 << n) - 1
            if acc[:2] != "WO" and not vol and (exp ^ got) >> lo & m:
                self.errors += 1
                Cur.ctx.cov("differs")
                return

    # -- memories ----------------------------------------------------------
    def cell(self, i, a):
        """(value, all copies agree)"""
        m = self.plan["mems"][i]
        kind = self.plan["blocks"][m["blk"]]["kind"]
        return self.cell_of(i, a, kind)

    def cell_of(self, i, a, kind):
        vs = [sum(self.hdl["%s[%d]" % (p, a)] << off for p, off, _ in c)
              for c in self.mstore[i][kind]]
        if not vs:
            return 0, True
        v = vs[0]
        return (self.dec(v) if self.plan["mems"][i]["user"] else v,
                len(set(vs)) == 1)

    def signals(self, i, a, kind, v):
        return [("%s[%d]" % (p, a), v >> off & (1 << sz) - 1)
                for c in self.mstore[i][kind] for p, off, sz in c]

    def cell_set(self, i, a, v, kind=None):
        m = self.plan["mems"][i]
        kind = kind or self.plan["blocks"][m["blk"]]["kind"]
        for p, x in self.signals(i, a, kind, self.enc(v) if m["user"]
                                 else v):
            self.hdl[p] = x
        self.note(i, a, kind)

    def note(self, i, a, kind):
        self.hist[i, a, kind].append(self.cell_of(i, a, kind)[0])

    def user_mem(self, o, rw, way):
        for k in range(len(rw.value)):
            a = rw.offset + k
            if way == "W":
                o["ulog"].append((a, self.dec(rw.value[k])))
                self.cell_set(o["i"], a, self.dec(rw.value[k]), o["hk"])
            else:
                rw.value[k] = self.enc(self.cell_of(o["i"], a, o["hk"])[0])

    def mem_write(self, path, v):
        """A signal of a memory is written from outside."""
        ctx = Cur.ctx
        i = self.owner[path][1]
        for o in self.pend:
            if o["i"] == i and (path, v) in o["todo"]:
                o["todo"].remove((path, v))
                if not o["todo"]:
                    self.pend.remove(o)
                    self.hdl[path] = v
                    for a in o["addrs"]:
                        self.note(i, a, o["hk"])
                return
        ctx.fail("stray", "0x%x is written to %s; accesses under way: %r" % (
            v, path, [(o["what"], o["todo"]) for o in self.pend]))

    async def mem_op(self, op):
        ctx = Cur.ctx
        kind, i, v, path, _ = op
        m = self.plan["mems"][i]
        mem = self.mems[i]
        mask = (1 << m["nbits"]) - 1
        blk = self.plan["blocks"][m["blk"]]
        hk = blk["kind"]
        off = v % m["size"]
        n = 1
        wr = kind in ("mw", "bw", "po")
        if kind in ("bw", "br"):
            n = 1 + (v >> 4) % (m["size"] - off)
        vals = [(v >> 3) * (k + 1) + k & mask for k in range(n)]
        peek = kind in ("po", "pe")
        if peek:
            path = "B"
            hk = ["RTL", "GATES"][v >> 5 & 1]
            if m["user"]:
                hk = blk["kind"]
        way, warn = self.path(path, m["blk"], m["user"] or m[hk])
        self.serial += 1
        st, got = [], []
        o = {"what": "%s #%d of memory %d at %d" % (kind, self.serial, i,
                                                    off),
             "i": i, "mem": True, "wr": wr, "way": way, "end": False,
             "el": mem, "ev": [], "ulog": [], "ufail": [], "doors": 0,
             "hk": hk, "addrs": [off + k for k in range(n)], "todo": []}
        what = o["what"]
        none = peek and not m["user"] and not m[hk]
        if none:
            self.errors += 1
            o["way"] = way = "-"
        elif way == "B" and not m["user"] and wr and (
                peek or m["acc"] == "RW"):
            o["todo"] = [x for k in range(n) for x in self.signals(
                i, off + k, hk, vals[k])]
            self.pend.append(o)
        before = {a: len(self.hist[i, a, hk]) - 1
                  for a in o["addrs"]}
        tag = OpTag("tag")
        tag.op = o
        kw = dict(path={"B": UVM_BACKDOOR, "F": UVM_FRONTDOOR,
                        "D": UVM_DEFAULT_PATH}[path], extension=tag)
        if kind == "po":
            await mem.poke(st, off, v << m["nbits"] + 1 | vals[0],
                           kind=hk, extension=tag)
        elif kind == "pe":
            await mem.peek(st, off, got, kind=hk, extension=tag)
        elif kind == "mw":
            await mem.write(st, off, vals[0], **kw)
        elif kind == "bw":
            await mem.burst_write(st, off, list(vals), **kw)
        elif kind == "mr":
            await mem.read(st, off, got, **kw)
        else:
            got = [0] * n
            await mem.burst_read(st, off, got, **kw)
        o["end"] = True
        fail = bool(o["ufail"])
        ro = wr and not peek and m["acc"] == "RO"
        ctx.eq(st, [UVM_NOT_OK if fail or none else UVM_IS_OK], "status",
               "status of " + what)
        ctx.eq(o["doors"], int(way == "F"), "front",
               "front-door actions of " + what)
        ctx.eq(o["todo"], [], "deposit", "signals not written by " + what)
        steps = m["user"] and way == "B" and not ro
        ctx.eq(o["ev"], self.events("W" if wr else "R") if steps else [],
               "hooks", "steps of the user backdoor for " + what)
        if fail or none:
            return
        if wr:
            if steps:
                ctx.eq(o["ulog"], [(off + k, x) for k, x in
                                   enumerate(vals)], "user",
                       "cells written by the user backdoor for " + what)
            return
        ctx.eq(len(got), n, "value", "number of values of " + what)
        for k, a in enumerate(o["addrs"]):
            ok = self.hist[i, a, hk][before[a]:]
            ctx.check(got[k] in ok, "value", lambda:
                      "%s returns 0x%x for cell %d, which held %r" % (
                          what, got[k], a, ["0x%x" % x for x in ok]))
        ctx.state("m", i, tuple(got))

    # -- clients -----------------------------------------------------------
    def path(self, path, b, have):
        if path == "D":
            path = "-"
            while path == "-" and b >= 0:
                path = self.plan["blocks"][b]["path"]
                b = self.plan["blocks"][b]["par"]
            if path == "-":
                path = "F"
        if path == "B" and not have:
            Cur.ctx.cov("no_backdoor")
            return "F", True
        return path, False

    async def main(self, test, phase):
        ctx = Cur.ctx
        ctx.spawn(self.watch(ctx))
        for t in [ctx.spawn(self.client(c)) for c in self.plan["clients"]]:
            await t
        await ctx.delay(20)
        self.over = True

    async def watch(self, ctx):
        await ctx.half()
        while not self.over:
            await Timer(1, "NS")
            ctx.check(ctx.now < 3000000, "stuck",
                      "register accesses do not end")

    async def client(self, ops):
        for op in ops:
            await Cur.ctx.delay(op[4])
            if op[0] in ("mw", "mr", "bw", "br", "po", "pe"):
                await self.mem_op(op)
            elif op[0] in ("hw", "h1"):
                r = self.plan["regs"][op[1]]
                v = op[2] & (1 << r["nbits"]) - 1
                Cur.ctx.fault("device_change")
                one = op[0] == "h1" and not r["user"]
                self.put(op[1], v, op[2] if one else None)
            else:
                await self.reg_op(op)

    async def reg_op(self, op):
        ctx = Cur.ctx
        kind, i, v, path, _ = op
        r = self.plan["regs"][i]
        rg = self.regs[i]
        v &= (1 << r["nbits"]) - 1
        way, warn = self.path(path, r["blk"], r["user"] or self.kinds(r))
        wr = kind in "wu"
        self.serial += 1
        o = {"what": "%s #%d of register %d" % (kind, self.serial, i),
             "i": i, "mem": False, "wr": wr, "way": way, "kind": kind,
             "v": v, "st": UVM_IS_OK, "end": False, "dead": False,
             "judged": False, "snap": None, "log": [], "ulog": [], "ev": [],
             "ufail": [], "doors": 0, "got": None, "el": rg, "mir0": None,
             "ok": [], "held": None}
        what = o["what"]
        tag = OpTag("tag")
        tag.op = o
        st, got = [], []
        kw = dict(path={"B": UVM_BACKDOOR, "F": UVM_FRONTDOOR,
                        "D": UVM_DEFAULT_PATH}[path], extension=tag)
        if kind == "w":
            await rg.write(st, v, **kw)
        elif kind == "u":
            rg.set(v)
            need = rg.needs_update()
            await rg.update(st, **kw)
            if not need:
                ctx.eq((st, o["mir0"]), ([UVM_IS_OK], None), "update",
                       "an update with nothing to do")
                return
        elif kind == "r":
            await rg.read(st, got, **kw)
        else:
            await rg.mirror(st, UVM_CHECK if kind == "c" else UVM_NO_CHECK,
                            **kw)
        o["end"] = True
        if self.active[i] is o and not o["judged"]:
            # ended early: only when the device could not be read
            self.judge(o)
            ctx.check(o["dead"], "incomplete", lambda:
                      what + " ended without its hooks")
        if self.active[i] is o:
            self.active[i] = None
        ctx.eq(st, [o["st"]], "status", "status of " + what)
        if kind == "r" and o["st"] == UVM_IS_OK:
            ctx.eq(got, [o["got"]], "value", "value returned by " + what)
        if kind == "c" and o["st"] == UVM_IS_OK:
            self.compare(r, o["mir0"], o["got"])
        ctx.rec(kind, i, way, o["st"], str(o["got"]))
        ctx.state(i, way, o["st"], o["got"], self.mir[i])

    def after(self, ctx, plan):
        ctx.eq(sev_count(UVM_ERROR), self.errors, "errors",
               "error messages")
        ctx.eq(sev_count(UVM_FATAL), 0, "errors", "fatal messages")


# -- the built-in access tests ---------------------------------------------
TESTS = {"reg": UVMRegAccessSeq, "mem": UVMMemAccessSeq,
         "both": UVMRegMemAccessSeq}
OFF = {"r": ("NO_REG_TESTS", "NO_REG_ACCESS_TEST"),
       "m": ("NO_REG_TESTS", "NO_MEM_TESTS", "NO_MEM_ACCESS_TEST")}


class AccessTest(Backdoor):
    """The device and its paths as above, tested by the built-in sequences.
    Each element goes through its steps once per map; what the device really
    gave decides whether an error is due."""
    name = "access_test"

    def layout(self, rng, nbits, holes=False):
        return super().layout(rng, nbits)

    def gen(self, rng, tier):
        p = super().gen(rng, tier)
        for x in p["regs"] + p["mems"]:
            if not self.kinds_of(p, x) and rng.random() < 0.8:
                x["GATES"] = [self.layout(rng, x["nbits"])]
        p["clients"] = [[]]
        p["check"] = False
        p["fails"] = []
        p["test"] = rng.choice(["reg", "reg", "mem", "both"])
        p["two"] = [rng.random() < 0.3 for _ in p["blocks"]]
        p["resets"] = [rng.getrandbits(32) for _ in p["regs"]]
        p["excl"] = []
        for what, n in (("b", len(p["blocks"])), ("r", len(p["regs"])),
                        ("m", len(p["mems"]))):
            for i in range(n):
                if rng.random() < 0.1:
                    p["excl"].append([what, i, rng.choice([
                        "NO_REG_TESTS", "NO_REG_ACCESS_TEST",
                        "NO_MEM_TESTS", "NO_MEM_ACCESS_TEST"])])
        p["bad"] = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                x = rng.choice([["r", i] for i in range(len(p["regs"]))]
                               + [["m", i] for i in range(len(p["mems"]))])
                p["bad"].append(x + [rng.choice(["stuck", "lost", "fread",
                                                 "fail"]),
                                     rng.randrange(32), rng.randrange(6)])
        return p

    def valid(self, plan):
        sizes = {"r": len(plan["regs"]), "m": len(plan["mems"]),
                 "b": len(plan["blocks"])}
        return (super().valid(plan)
                and len(plan["resets"]) == sizes["r"]
                and len(plan["two"]) == sizes["b"]
                and not plan["check"] and not plan["fails"]
                and plan["test"] in TESTS
                and all(0 <= x[1] < sizes[x[0]] and 0 <= x[4] < 6
                        and 0 <= x[3] < 32 for x in plan["bad"])
                and all(x[1] < sizes[x[0]] for x in plan["excl"]))

    def reset_value(self, i):
        return self.plan["resets"][i] & (
            1 << self.plan["regs"][i]["nbits"]) - 1

    # -- the device -------------------------------------------------------
    def bads(self, tag, i, what):
        return [x for x in self.plan["bad"] if x[:3] == [tag, i, what]]

    def whose(self, path):
        return None

    def hdl_read(self, path):
        v = self.hdl[path]
        self.leaf(path, "R")
        return v

    def hdl_write(self, path, v):
        self.hdl[path] = v
        if self.leaf(path, "W"):
            self.settle("m", self.owner[path][1])
        if self.owner[path][0] == "r":
            self.settle("r", self.owner[path][1])

    def leaf(self, path, way):
        """A cell was peeked or poked once all its signals were."""
        tag, i = self.owner[path]
        if tag == "r" or self.over:
            return False
        a = int(path[path.rindex("[") + 1:-1])
        k = i, a, way
        self.leaves.setdefault(k, []).append(path)
        m = self.plan["mems"][i]
        kind = self.plan["blocks"][m["blk"]]["kind"]
        want = [s[0] for s in self.signals(i, a, kind, 0)]
        if len(self.leaves[k]) < len(want):
            return False
        Cur.ctx.eq(sorted(self.leaves.pop(k)), sorted(want), "signals",
                   "signals of cell %d of memory %d" % (a, i))
        self.cell_step(i, a, "B", way == "W", self.cell(i, a)[0], False,
                       None)
        return True

    def settle(self, tag, i):
        """Stuck bits."""
        for _, _, _, bit, a in self.bads(tag, i, "stuck"):
            x = self.plan["regs" if tag == "r" else "mems"][i]
            kind = self.plan["blocks"][x["blk"]]["kind"]
            for c in (self.store if tag == "r" else self.mstore)[i][kind]:
                for p, off, sz in c:
                    b = bit % x["nbits"] - off
                    if 0 <= b < sz:
                        p = p if tag == "r" else "%s[%d]" % (p,
                                                             a % x["size"])
                        self.hdl[p] = self.hdl[p] & ~(1 << b) | (a & 1) << b

    def put(self, i, v, one=None):
        super().put(i, v, one)
        self.settle("r", i)

    def cell_set(self, i, a, v, kind=None):
        super().cell_set(i, a, v, kind)
        self.settle("m", i)

    def failing(self, tag, i, n):
        """Does the n-th front-door access fail?"""
        f = any(x[3] % 4 == n for x in self.bads(tag, i, "fail"))
        if f:
            Cur.ctx.fault("access_failure")
            self.errors += 1
        return f

    async def door(self, rw):
        ctx = Cur.ctx
        mem = isinstance(rw.element, BMem)
        tag, i = "m" if mem else "r", rw.element.idx
        self.nwait += 1
        await ctx.delay(self.plan["lat"][self.nwait % len(self.plan["lat"])])
        n = self.nfront[tag, i] = self.nfront.get((tag, i), -1) + 1
        bad = self.failing(tag, i, n)
        rw.status = UVM_NOT_OK if bad else UVM_IS_OK
        wr = rw.kind in (UVM_WRITE, UVM_BURST_WRITE)
        lost = bad or bool(self.bads(tag, i, "lost"))
        if self.bads(tag, i, "lost") and wr:
            ctx.fault("lost_write")
        x = 0
        for _, _, _, bit, a in self.bads(tag, i, "fread"):
            ctx.fault("read_error")
            x |= 1 << bit % self.plan["mems" if mem else "regs"][i]["nbits"]
        if self.bads(tag, i, "stuck"):
            ctx.fault("stuck_bit")
        if mem:
            m = self.plan["mems"][i]
            a = rw.offset
            if wr and not lost and m["acc"] != "RO":
                self.cell_set(i, a, rw.value[0])
            elif not wr:
                rw.value[0] = self.cell(i, a)[0] ^ x
            self.cell_step(i, a, "F", wr, rw.value[0], bad, rw.local_map)
            return
        r = self.plan["regs"][i]
        user = r["user"]
        cur = self.now(i)
        if wr:
            if not lost:
                new = self.write_all(r, cur, rw.value[0])
                self.put(i, self.enc(new) if user else new)
        else:
            rw.value[0], new = self.read_all(r, cur)
            rw.value[0] ^= x
            self.put(i, self.enc(new) if user else new)
        self.reg_step(i, "F", wr, rw.value[0], bad, rw.local_map)

    async def user(self, bd, rw, way):
        ctx = Cur.ctx
        self.nuser += 1
        await ctx.delay(self.plan["lat"][self.nuser % len(self.plan["lat"])])
        rw.status = UVM_IS_OK
        if isinstance(rw.element, BMem):
            i, a = rw.element.idx, rw.offset
            if way == "W":
                self.cell_set(i, a, self.dec(rw.value[0]))
            else:
                rw.value[0] = self.enc(self.cell(i, a)[0])
            self.cell_step(i, a, "B", way == "W", self.dec(rw.value[0]),
                           False, None)
            return
        i = rw.element.idx
        if way == "W":
            self.put(i, rw.value[0])
        else:
            rw.value[0] = (self.copies(i) or [0])[0]

    async def hook(self, what, rw):
        self.nwait += 1
        await Cur.ctx.delay(self.plan["lat"][self.nwait
                                             % len(self.plan["lat"])])

    # -- what the tests are to do ------------------------------------------
    def tested(self, tag, i):
        p = self.plan
        if p["test"] == {"r": "mem", "m": "reg"}[tag]:
            return False
        x = p["regs" if tag == "r" else "mems"][i]
        off = OFF[tag]
        if any(e[:2] == [tag, i] and e[2] in off for e in p["excl"]):
            return False
        b = x["blk"]
        while b >= 0:
            if any(e[:2] == ["b", b] and e[2] in off for e in p["excl"]):
                return False
            b = p["blocks"][b]["par"]
        if not (x["user"] or self.kinds(x)):
            return False
        return tag == "m" or any(f[2] != "RO" for f in x["fields"])

    def expect(self, tag, i, step, want):
        Cur.ctx.eq(step, want, "steps", "access of %s %d" % (
            {"r": "register", "m": "memory"}[tag], i))

    async def begin(self, i, rw, way):
        self.nwait += 1
        await Cur.ctx.delay(self.plan["lat"][self.nwait
                                             % len(self.plan["lat"])])

    async def finish_op(self, i, rw):
        if rw.path == UVM_BACKDOOR:
            self.reg_step(i, "B", rw.kind == UVM_WRITE, rw.value[0], False,
                          None)

    def order(self, tag, i):
        """Which map and which step comes next."""
        k = (tag, i) if tag == "r" else (tag,) + i
        n = self.count.get(k, 0)
        self.count[k] = n + 1
        x = i if tag == "r" else i[0]
        Cur.ctx.check(self.tested(tag, x), "excluded", lambda:
                      "%s %d is accessed though it is not to be tested" % (
                          tag, x))
        return n

    def reg_step(self, i, door, wr, v, bad, mp):
        ctx = Cur.ctx
        r = self.plan["regs"][i]
        mask = (1 << r["nbits"]) - 1
        n = self.order("r", i)
        step = n % 4
        self.expect("r", i, (door, wr), [("F", True), ("B", False),
                                         ("B", True), ("F", False)][step])
        if door == "F":
            self.seen.setdefault(("r", i, step), []).append(mp)
        m = self.mir[i]
        if step == 0:
            self.was[i] = m
            ctx.eq(v, ~m & mask, "value", "value written to register %d" % i)
            self.mir[i] = self.write_all(r, m, v)
        elif step == 2:
            # what an access leaves in the device
            self.mir[i] = self.write_all(r, self.held.get(i, 0),
                                         self.was[i])
            ctx.eq(v, self.mir[i], "value",
                   "value deposited in register %d" % i)
        else:
            if not bad:
                self.compare(r, m, v)
            new = 0
            for lo, k, acc, _ in r["fields"]:
                f = (1 << k) - 1
                x = 0 if acc in CLEAR else f if acc in SET else \
                    m >> lo if acc in WONLY else v >> lo
                new |= (x & f) << lo
            self.mir[i] = new
        self.held[i] = self.now(i)
        if bad:
            self.exact = False

    def cell_step(self, i, a, door, wr, v, bad, mp):
        ctx = Cur.ctx
        m = self.plan["mems"][i]
        mask = (1 << m["nbits"]) - 1
        ro = m["acc"] == "RO"
        n = self.order("m", (i, a))
        steps = [("F", True), ("B", False), ("B", True), ("F", False)]
        if ro:
            steps.insert(0, ("B", False))
        step = n % len(steps)
        self.expect("m", i, (door, wr), steps[step])
        if door == "F":
            self.seen.setdefault(("m", i, a, step), []).append(mp)
        step -= ro
        if step in (-1, 0) and not (ro and step == 0):
            self.val[i, a] = v
        elif step == 1:
            if v != self.val[i, a]:
                self.errors += 1
                ctx.cov("peek_differs")
        elif step == 2:
            ctx.eq(v, ~self.val[i, a] & mask, "value",
                   "value poked into cell %d of memory %d" % (a, i))
            self.val[i, a] = v
        elif step == 3 and not bad:
            if v != self.val[i, a]:
                self.errors += 1
                ctx.cov("read_differs")

    # -- run ---------------------------------------------------------------
    async def main(self, test, phase):
        ctx = Cur.ctx
        p = self.plan
        self.nfront, self.count, self.seen = {}, {}, {}
        self.held, self.val, self.exact = {}, {}, True
        self.was, self.leaves = {}, {}
        for what, i, attr in p["excl"]:
            el = {"b": self.blk, "r": self.regs, "m": self.mems}[what][i]
            UVMResourceDb.set("REG::" + el.get_full_name(), attr, 1, None)
        for i, r in enumerate(p["regs"]):
            v = self.reset_value(i)
            self.put(i, self.enc(v) if r["user"] else v)
            self.held[i] = self.now(i)
        for i in range(len(p["mems"])):
            self.settle("m", i)
        s = TESTS[p["test"]]("test")
        s.model = self.blk[0]
        await s.start(None)
        await ctx.delay(20)
        self.over = True
        for tag, xs in (("r", p["regs"]), ("m", p["mems"])):
            for i, x in enumerate(xs):
                maps = self.maps[x["blk"]]
                ro = tag == "m" and x["acc"] == "RO"
                n = (5 if ro else 4) * len(maps) if self.tested(tag, i) else 0
                for k in [(tag, i)] if tag == "r" else [
                        (tag, i, a) for a in range(x["size"])]:
                    # (blocks below blocks are visited more than once)
                    got = self.count.get(k, 0)
                    ctx.check(got >= n and (got % n if n else got) == 0,
                              "steps", lambda: "%d accesses of %r, not %d" % (
                                  got, k, n))
                    for step in (0, 3) if n else ():
                        ctx.eq(sorted(m.get_full_name() for m in
                                      self.seen[k + (step + ro,)]),
                               sorted(m.get_full_name() for m in maps
                                      * (got // n)),
                               "maps", "maps used for %r" % (k,))
        ctx.state(p["test"], self.errors, tuple(sorted(self.held.items())))

    def after(self, ctx, plan):
        n = sev_count(UVM_ERROR)
        if self.exact:
            ctx.eq(n, self.errors, "errors", "error messages")
        else:
            ctx.check(n >= self.errors, "errors", lambda:
                      "%d errors are due, %d were reported" % (self.errors,
                                                               n))
        ctx.eq(sev_count(UVM_FATAL), 0, "errors", "fatal messages")
