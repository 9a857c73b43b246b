"""In-order and algorithmic comparators fed by racing, faulty streams."""
from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario, root
from uvm.comps.uvm_algorithmic_comparator import UVMAlgorithmicComparator
from uvm.comps.uvm_in_order_comparator import (UVMInOrderBuiltInComparator,
                                               UVMInOrderClassComparator)
from uvm.comps.uvm_pair import UVMBuiltInPair
from uvm.macros.uvm_object_defines import (
    uvm_field_int, uvm_field_string, uvm_object_utils_begin,
    uvm_object_utils_end)
from uvm.tlm1.uvm_analysis_port import UVMAnalysisImp, UVMAnalysisPort


class Item(UVMObject):
    def __init__(self, name="item", k=0, s=""):
        super().__init__(name)
        self.k, self.s = k, s

    def convert2string(self):
        return "%d:%s" % (self.k, self.s)


uvm_object_utils_begin(Item)
uvm_field_int("k")
uvm_field_string("s")
uvm_object_utils_end(Item)


class Manual(UVMObject):
    def __init__(self, name="manual", k=0, s=""):
        super().__init__(name)
        self.k, self.s = k, s

    def do_compare(self, rhs, comparer):
        return int(self.k == rhs.k and self.s == rhs.s)

    def convert2string(self):
        return "%d/%s" % (self.k, self.s)


class Double(object):
    def transform(self, b):
        return type(b)("t", b.k * 2 + 1, b.s)


class Sink(UVMComponent):
    def __init__(self, name, parent, n):
        super().__init__(name, parent)
        self.n = n
        self.imp = UVMAnalysisImp("imp", self)

    def write(self, t):
        Cur.scn.pair(self.n, t)


class Comparators(UvmScenario):
    name = "comparators"
    max_steps = 60000

    def gen(self, rng, tier):
        big = tier != "quick"
        plan = {"comps": [], "clients": [], "verb": rng.random() < 0.3}
        for _ in range(rng.randint(1, 3)):
            plan["comps"].append([rng.choice(["int", "str", "item", "manual",
                                              "algo"]), rng.random() < 0.7])
        n = len(plan["comps"])
        for c in range(n):
            seq = [rng.randrange(4) for _ in range(rng.randint(
                1, 40 if big else 14))]
            for side in (0, 1):
                ops, vals = [], list(seq)
                for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                    k = rng.choice(["drop", "dup", "swap", "corrupt"])
                    if not vals:
                        break
                    j = rng.randrange(len(vals))
                    if side == 0 and k == "corrupt":
                        continue
                    if k == "drop":
                        del vals[j]
                    elif k == "dup":
                        vals.insert(j, vals[j])
                    elif k == "swap":
                        vals[j:j + 2] = vals[j:j + 2][::-1]
                    else:
                        vals[j] += 10
                    ops.append([0, c, side, "fault", k])
                slow = rng.choice([[0], [0, 0, 1], [1, 2, 3], [0, 0, -1, 5]])
                for v in vals:
                    ops.append([rng.choice(slow), c, side, "w", v])
                if rng.random() < 0.3:
                    ops.insert(rng.randint(0, len(ops)),
                               [rng.choice([0, 1]), c, side, "flush", 0])
                if rng.random() < 0.25 and len(ops) > 2:    # two writers
                    h = rng.randint(1, len(ops) - 1)
                    plan["clients"] += [ops[:h], ops[h:]]
                else:
                    plan["clients"].append(ops)
        return plan

    def valid(self, plan):
        return all(o[1] < len(plan["comps"]) for c in plan["clients"]
                   for o in c)

    def build(self, test):
        self.cmps, self.src, self.st = [], [], []
        root().set_report_verbosity_level(UVM_LOW)  # let errors through
        for i, (k, sink) in enumerate(self.plan["comps"]):
            if k == "algo":
                c = UVMAlgorithmicComparator("c%d" % i, test, Double())
            elif k in ("int", "str"):
                c = UVMInOrderBuiltInComparator("c%d" % i, test)
            else:
                c = UVMInOrderClassComparator("c%d" % i, test)
            c.set_report_verbosity_level_hier(
                UVM_FULL if self.plan["verb"] else UVM_LOW)
            self.cmps.append(c)
            self.src.append([UVMAnalysisPort("p%d_%d" % (i, s), test)
                             for s in (0, 1)])
            self.st.append({"in": [[], []], "done": 0, "ok": 0, "bad": 0,
                            "pairs": 0, "at": [[], []]})
        self.sinks = [Sink("s%d" % i, test, i) if s else None
                      for i, (k, s) in enumerate(self.plan["comps"])]

    def inner(self, i):
        c = self.cmps[i]
        return c.comp if self.plan["comps"][i][0] == "algo" else c

    def connect(self, test):
        for i, c in enumerate(self.cmps):
            self.src[i][0].connect(c.before_export)
            self.src[i][1].connect(c.after_export)
            if self.sinks[i]:
                self.inner(i).pair_ap.connect(self.sinks[i].imp)

    def make(self, i, side, v):
        k = self.plan["comps"][i][0]
        if k == "int":
            return v
        if k == "str":
            return "v%d %%d%%" % v
        if k == "algo":
            return Item("i", v if side == 0 else v * 2 + 1, "s")
        return (Item if k == "item" else Manual)("i", v // 2, "s%d" % (v % 2))

    def same(self, i, b, a):
        k = self.plan["comps"][i][0]
        if k in ("int", "str"):
            return b == a
        if k == "algo":
            return b.k * 2 + 1 == a.k and b.s == a.s
        return (b.k, b.s) == (a.k, a.s)

    async def main(self, test, phase):
        ctx = Cur.ctx
        self.errors = sev_count(UVM_ERROR)
        self.bad = 0
        ts = [ctx.spawn(self.client(c)) for c in self.plan["clients"]]
        for t in ts:
            await t
        await ctx.delay(2)
        for i in range(len(self.cmps)):
            self.settled(i)
        ctx.eq(sev_count(UVM_ERROR) - self.errors, self.bad, "errors",
               "errors reported for mismatches")

    async def client(self, ops):
        ctx = Cur.ctx
        for d, i, side, k, v in ops:
            await ctx.delay(d)
            st = self.st[i]
            if k == "w":
                x = self.make(i, side, v)
                st["in"][side].append(x)
                st["at"][side].append(ctx.now)
                self.src[i][side].write(x)
                ctx.rec("w", i, side, v)
                if d > 0 and self.alone(i):
                    await ctx.half()
                    self.settled(i)
            elif k == "flush":
                await ctx.half()        # nothing is under way
                self.settled(i)
                self.inner(i).flush()
                st["ok"] = st["bad"] = 0
                ctx.cov("flush")
            else:
                ctx.fault("stream_" + v)

    def alone(self, i):
        return len([1 for c in self.plan["clients"] if c and c[0][1] == i]) \
            < 3

    def account(self, i):
        """Advances the model over the pairs that are complete."""
        st = self.st[i]
        while st["done"] < min(len(st["in"][0]), len(st["in"][1])):
            b, a = (st["in"][s][st["done"]] for s in (0, 1))
            st["done"] += 1
            ok = self.same(i, b, a)
            st["ok" if ok else "bad"] += 1
            self.bad += not ok

    def settled(self, i):
        ctx = Cur.ctx
        self.account(i)
        st, c = self.st[i], self.inner(i)
        what = "of comparator %d (%s)" % (i, self.plan["comps"][i][0])
        ctx.eq(c.m_matches, st["ok"], "matches", "matches " + what)
        ctx.eq(c.m_mismatches, st["bad"], "mismatches", "mismatches " + what)
        if self.sinks[i]:
            ctx.eq(st["pairs"], st["done"], "pairs", "pairs " + what)
        if st["done"]:
            ctx.nontrivial = True
        ctx.state(i, st["ok"], st["bad"])
        ctx.cov("ok" if st["bad"] == 0 else "bad")

    def pair(self, i, p):
        ctx = Cur.ctx
        st = self.st[i]
        n = st["pairs"]
        st["pairs"] += 1
        ctx.check(n < min(len(st["in"][0]), len(st["in"][1])), "pairs",
                  lambda: "comparator %d made pair %d of %d and %d items" % (
                      i, n, len(st["in"][0]), len(st["in"][1])))
        b, a = st["in"][0][n], st["in"][1][n]
        ctx.check(p.first is a or p.first == a, "pair", lambda:
                  "pair %d of comparator %d has %r, expected %r" % (
                      n, i, p.first, a))
        if self.plan["comps"][i][0] == "algo":
            ctx.eq((p.second.k, p.second.s), (b.k * 2 + 1, b.s), "pair",
                   "transformed item of pair %d" % n)
        else:
            ctx.check(p.second is b or p.second == b, "pair", lambda:
                      "pair %d of comparator %d has %r, expected %r" % (
                          n, i, p.second, b))
        ctx.eq(ctx.now, max(st["at"][0][n], st["at"][1][n]), "when",
               "time of pair %d of comparator %d" % (n, i))
        if isinstance(p, UVMBuiltInPair):
            q = UVMBuiltInPair("q")
            q.first, q.second = p.first, p.second
            ctx.eq(bool(p.compare(q)), True, "pair", "pair compares equal")
            q.second = "other"
            ctx.eq(bool(p.compare(q)), False, "pair", "pair compares equal "
                   "to another one")
        p.convert2string()
        ctx.rec("pair", i, n)
