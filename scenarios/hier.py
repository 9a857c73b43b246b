"""The component hierarchy: names, lookups, searches and traversals while the
tree is built, walked and disturbed by several clients."""
import re

from simkit.uvmkit import *
from simkit.uvmkit import Cur, Delays, UvmScenario, root, rserver
from scenarios.config import glob_re

NAMES = ["a", "b", "aa", "ab", "x1", "x10", "env", "COMP_1"]


class HC(UVMComponent):
    idx = None

    def build_phase(self, phase):
        super().build_phase(phase)
        Cur.scn.built(self.idx)


uvm_component_utils(HC)


class Calm(UVMReportCatcher):
    """These reports do not end the run."""

    def catch(self):
        if self.get_id() in ("CLDEXT", "ILLCRT"):
            self.set_action(UVM_DISPLAY)
        return 1


class Hierarchy(UvmScenario):
    name = "hierarchy"
    max_steps = 60000

    # -- plan -------------------------------------------------------------
    def gen(self, rng, tier):
        big = tier != "quick"
        comps = []                      # [parent (-1 test, -2 none), name]
        n = rng.randint(1, 24 if big else 12)
        deep = rng.random() < 0.4
        while len(comps) < n:
            lo = max(-1, len(comps) - 2) if deep else -1
            p = rng.randint(lo, len(comps) - 1)
            if rng.random() < 0.06:
                p = -2
            name = rng.choice(NAMES[:3] if deep else NAMES)
            if rng.random() < 0.05:
                name = "uvm_test_top" if p != -2 else "top2"
            if [p, name] not in comps:
                comps.append([p, name])
        plan = {"comps": comps, "how": [rng.choice("nnf") for _ in comps],
                "build": [], "clients": [], "late": None}
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            op = self.gen_op(rng, plan)
            if op[0] != "name":         # (an error would end the run)
                plan["build"].append([rng.randint(-1, n - 1), op])
        for _ in range(rng.randint(1, 3)):
            plan["clients"].append(
                [[Delays.gen(rng, 2)] + self.gen_op(rng, plan)
                 for _ in range(rng.randint(1, 40 if big else 12))])
        if rng.random() < 0.15:
            plan["late"] = [rng.randint(-2, n - 1), rng.choice(NAMES),
                            rng.choice(["connect", "main", "report"])]
        return plan

    def gen_op(self, rng, plan):
        comps = plan["comps"]
        n = len(comps)
        who = rng.randint(-2, n - 1)
        r = rng.random()
        if r < 0.3:
            # a path that is there, or nearly
            t = rng.randint(-1, n - 1)
            path = self.path(comps, t)
            if rng.random() < 0.5:
                path = "." + path
            else:
                base = self.path(comps, who) + "." if who != -2 else ""
                path = path[len(base):] if path.startswith(base) and \
                    len(path) > len(base) else "." + path
            if rng.random() < 0.25:
                k = path.split(".")
                j = rng.randrange(len(k))
                k[j] = rng.choice(NAMES + ["zz", "uvm_test_top"])
                path = ".".join(k) if len(path) < 2 or k != [""] else "zz"
            if rng.random() < 0.1:
                path += "." + rng.choice(NAMES)
            return ["look", who, path]
        if r < 0.6:
            return ["find", rng.choice(["find", "all", "all", "under"]),
                    self.gen_pattern(rng, comps), who]
        if r < 0.8:
            return ["walk", who, rng.choice(["", "", "find", "look", "topo",
                                             "again"])]
        if r < 0.88:
            return ["kids", who]
        if r < 0.94:
            return ["dup", rng.randint(-1, n - 1)]
        return ["name", rng.randint(-1, n - 1), rng.choice(NAMES)]

    def gen_pattern(self, rng, comps):
        p = self.path(comps, rng.randint(-1, len(comps) - 1))
        k = rng.randrange(len(p))
        return rng.choice([p, p, "*", "*" + p[k:], p[:k] + "*", p[:k + 1],
                           p[:k] + "?" + p[k + 1:], p + ".*", p + "?",
                           "*." + p.split(".")[-1], "zz*"])

    @staticmethod
    def path(comps, i):
        out = []
        while i >= 0:
            out.insert(0, comps[i][1])
            i = comps[i][0]
        return ".".join((["uvm_test_top"] if i == -1 else []) + out)

    def valid(self, plan):
        c = plan["comps"]
        n = len(c)
        if not all(-2 <= p < i for i, (p, _) in enumerate(c)) or \
                len(set(map(tuple, c))) != n or len(plan["how"]) < n:
            return False
        ops = [o for _, o in plan["build"]] + \
            [o[1:] for cl in plan["clients"] for o in cl]
        for o in ops:
            who = {"look": 1, "find": 3, "walk": 1, "kids": 1, "dup": 1,
                   "name": 1}[o[0]]
            if o[who] >= n or (o[0] in ("look", "find") and not o[2]):
                return False
            if o[0] == "look" and (o[2].endswith(".") or ".." in o[2]):
                return False
        return all(i < n and o[0] != "name" for i, o in plan["build"]) and (
            plan["late"] is None or plan["late"][0] < n)

    # -- model ------------------------------------------------------------
    def kids(self, i):
        return [j for j in self.order if j != -2 and self.parent(j) == i]

    def parent(self, j):
        return -2 if j == -1 else self.plan["comps"][j][0]

    def name_of(self, j):
        return "uvm_test_top" if j == -1 else self.plan["comps"][j][1]

    def full(self, j):
        return "" if j == -2 else self.path(self.plan["comps"], j)

    def below(self, i):
        """Everything under i and i itself, children first."""
        out = []
        for j in self.kids(i):
            out += self.below(j)
        return out + ([i] if i != -2 else [])

    def resolve(self, i, path):
        if path.startswith("."):
            i, path = -2, path[1:]
        for leaf in path.split("."):
            j = [k for k in self.kids(i) if self.name_of(k) == leaf]
            if not j:
                return None
            i = j[0]
        return i

    # -- bench ------------------------------------------------------------
    def build(self, test):
        self.log = []
        rserver().set_logger(self.log.append)
        UVMReportCb.add(None, Calm("calm"))
        self.test = test
        self.comps = {-1: test, -2: root()}
        self.index = {test: -1, root(): -2}
        self.order = [-1]
        self.built(-1)

    def built(self, i):
        """The build phase of component i makes its children."""
        if i is None:
            return
        plan = self.plan
        for j, (p, name) in enumerate(plan["comps"]):
            if p != i and not (i == -1 and p == -2):
                continue
            if p == -2:
                c = HC(name, None)
            elif plan["how"][j] == "f":
                c = self.comps[i].create_component("HC", name)
            else:
                c = HC(name, self.comps[i])
            c.idx = j
            self.comps[j] = c
            self.index[c] = j
            self.order.append(j)
            Cur.ctx.eq(c.get_full_name(), self.full(j), "name", "full name")
            Cur.ctx.check(c.get_parent() is self.comps[p], "parent",
                          "parent of %s" % name)
        for k, op in plan["build"]:
            if k == i:
                self.do(op)
        self.check_tree()

    def connect(self, test):
        self.late("connect")

    async def main(self, test, phase):
        ctx = Cur.ctx
        ctx.nontrivial = len(self.plan["comps"]) > 1
        ts = [ctx.spawn(self.client(c)) for c in self.plan["clients"]]
        for t in ts:
            await t
        self.check_tree()
        self.late("main")

    def after(self, ctx, plan):
        self.check_tree()
        self.late("report")

    async def client(self, ops):
        for d, *op in ops:
            await Cur.ctx.delay(d)
            self.do(op)

    def late(self, when):
        """Nothing may join the tree once it is built."""
        x = self.plan["late"]
        if x is None or x[2] != when:
            return
        p = self.comps[x[0]] if x[0] != -2 else None
        del self.log[:]
        HC(x[1], p)
        Cur.ctx.check(any("ILLCRT" in t and "FATAL" in t for t in self.log),
                      "late", "component made after the build phase ended")
        Cur.ctx.cov("late_" + when)
        self.plan["late"] = None
        self.stop = True

    stop = False

    def do(self, op):
        if self.stop:
            return
        ctx, kind = Cur.ctx, op[0]
        there = set(self.order) | {-2}
        who = op[{"find": 3}.get(kind, 1)]
        if who not in there:
            return                      # (not built yet)
        del self.log[:]
        ctx.rec(kind, who, str(op[2:3]))
        ctx.cov(kind)
        c = self.comps[who]
        if kind == "look":
            self.look(who, op[2])
        elif kind == "find":
            self.find(op[1], op[2], who)
        elif kind == "walk":
            self.walk(who, op[2])
        elif kind == "kids":
            self.check_kids(who)
        elif kind == "dup":
            p = self.parent(who)
            HC(self.name_of(who), None if p == -2 else self.comps[p])
            ctx.fault("duplicate_name")
            ctx.check(any("CLDEXT" in t and "FATAL" in t for t in self.log),
                      "dup", "no report about a second " + self.full(who))
            self.check_tree()
        elif kind == "name":
            c.set_name(op[2])
            ctx.fault("rename")
            ctx.check(any("INVSTNM" in t for t in self.log), "rename",
                      "no report about the change of a name")
            ctx.eq(c.get_full_name(), self.full(who), "rename", "full name")

    def look(self, who, path):
        ctx = Cur.ctx
        want = self.resolve(who, path)
        n = len(self.log)
        got = self.comps[who].lookup(path)
        ctx.eq(self.index.get(got), want, "lookup", "%r from %r"
               % (path, self.full(who)))
        ctx.check((got is None) == (want is None), "lookup",
                  "found something unknown")
        ctx.check(any("Lookup Error" in t for t in self.log[n:]) ==
                  (want is None), "lookup", "warning about %r" % path)

    def find(self, how, pattern, who):
        ctx = Cur.ctx
        if how != "under":
            who = -2
        want = [j for j in self.below(who) if
                re.fullmatch(glob_re(pattern), self.full(j), re.S)]
        n = len(self.log)
        if how == "find":
            got = root().find(pattern)
            ctx.eq(self.index.get(got), want[0] if want else None, "find",
                   "first match of %r" % pattern)
            ctx.check((got is None) == (not want), "find", "unknown match")
            for id_, on in (("MMATCH", len(want) > 1), ("CMPNFD", not want)):
                ctx.check(any(id_ in t for t in self.log[n:]) == on, "find",
                          "%s about %r" % (id_, pattern))
            return
        got = []
        if how == "all":
            root().find_all(pattern, got)
        else:
            root().find_all(pattern, got, self.comps[who])
        ctx.eq([self.index.get(x) for x in got], want, "find_all",
               "matches of %r below %r" % (pattern, self.full(who)))

    def walk(self, who, inside):
        ctx, c = Cur.ctx, self.comps[who]
        got = []
        k = c.get_first_child()
        while k is not None:
            got.append(self.index.get(k))
            if len(got) > 40:
                break
            if inside == "find":
                root().find_all("*", [])
            elif inside == "look":
                k.lookup(".uvm_test_top")
            elif inside == "topo":
                self.topology()
            elif inside == "again" and k.get_num_children():
                k.get_first_child()
            k = c.get_next_child()
        ctx.eq(got, self.kids(who), "walk", "children of %r with %s inside"
               % (self.full(who), inside or "nothing"))

    def topology(self):
        """The printed tree shows every component below its parent."""
        ctx = Cur.ctx
        del self.log[:]
        root().print_topology()
        rows = [m.groups() for m in re.finditer(
            r"^( *)(\S+) +(HC|SimTest) ", "".join(self.log), re.M)]
        want, todo = [], [(j, 1) for j in reversed(self.kids(-2))]
        while todo:
            j, d = todo.pop()
            want.append((self.name_of(j), "HC" if j >= 0 else "SimTest", d))
            todo += [(k, d + 1) for k in reversed(self.kids(j))]
        ctx.eq([r[1:] for r in rows], [w[:2] for w in want], "topology",
               "printed components")
        ind = {}
        for r, w in zip(rows, want):
            ctx.eq(len(r[0]), ind.setdefault(w[2], len(r[0])), "topology",
                   "indentation of " + w[0])
        deep = [ind[d] for d in sorted(ind)]
        ctx.check(deep == sorted(set(deep)), "topology", "depths %r" % deep)

    def check_kids(self, i):
        ctx, c = Cur.ctx, self.comps[i]
        want = self.kids(i)
        l = []
        c.get_children(l)
        ctx.eq([self.index.get(x) for x in l], want, "children",
               "of %r" % self.full(i))
        ctx.eq(c.get_num_children(), len(want), "children", "number")
        for j in want:
            ctx.check(c.get_child(self.name_of(j)) is self.comps[j],
                      "children", "child by name")
        for nm in NAMES:
            ctx.eq(bool(c.has_child(nm)),
                   nm in [self.name_of(j) for j in want], "children",
                   "has_child(%r)" % nm)

    def check_tree(self):
        if self.stop:
            return
        ctx = Cur.ctx
        for j in self.order:
            c = self.comps[j]
            ctx.eq(c.get_full_name(), self.full(j), "name", "full name")
            ctx.eq(c.get_name(), self.name_of(j), "name", "name")
            ctx.eq(c.get_depth(), self.full(j).count(".") + 1, "depth",
                   "of " + self.full(j))
            ctx.check(c.get_parent() is self.comps[self.parent(j)], "parent",
                      "of " + self.full(j))
            self.check_kids(j)
        self.check_kids(-2)
        tops = [self.index.get(t) for t in root().top_levels]
        ctx.eq(sorted(tops), sorted(self.kids(-2)), "children", "top levels")
