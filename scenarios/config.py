"""Configuration and resource databases, and automatic configuration of
component fields, across build, connect and run phases."""
import re

from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario, root
from uvm.base.uvm_config_db import UVMConfigDb
from uvm.base.uvm_resource import (PRI_HIGH, PRI_LOW, UVMResource,
                                   UVMResourcePool)
from uvm.base.uvm_resource_db import UVMResourceDb
from uvm.macros.uvm_object_defines import (
    uvm_component_utils_begin, uvm_component_utils_end, uvm_field_int,
    uvm_field_object, uvm_field_string)

NAMES = ["a", "b", "ab", "a1", "x[0]", "x[1]", "b_a"]
FIELDS = ["f0", "f1", "f01", "g"]


class CNode(UVMComponent):
    def build_phase(self, phase):
        super().build_phase(phase)
        Cur.scn.phase_of(self, "build")

    def connect_phase(self, phase):
        super().connect_phase(phase)
        Cur.scn.phase_of(self, "connect")


uvm_component_utils(CNode)


class Thing(UVMObject):
    pass


def glob_re(g):
    return "".join(".*" if c == "*" else "." if c == "?" else re.escape(c)
                   for c in g)


def matches(scope, name, loose):
    if len(scope) > 1 and scope[0] == "/" and scope[-1] == "/":
        return re.search(scope[1:-1], name) is not None
    if loose:
        return re.search(glob_re(scope), name) is not None
    return re.fullmatch(glob_re(scope), name) is not None


class Rec(object):
    """A resource of the reference model."""

    def __init__(self, key, scope, prec):
        self.key, self.scope, self.prec = key, scope, prec
        self.val = None
        self.modified = self.ro = False
        self.when = 0
        self.handle = None          # the real one, when known
        self.waiting = False


class Tree(object):
    """Plan fragments: a tree of components with glob-prone names."""
    @staticmethod
    def gen(rng, n, maxd=4):
        comps = []                  # [parent, name]
        while len(comps) < n:
            p = rng.randint(-1, len(comps) - 1)
            d, q = 1, p
            while q >= 0:
                d, q = d + 1, comps[q][0]
            name = rng.choice(NAMES)
            if d > maxd or [p, name] in comps:
                continue
            comps.append([p, name])
        return comps

    @staticmethod
    def path(comps, i):
        out = []
        while i >= 0:
            out.insert(0, comps[i][1])
            i = comps[i][0]
        return ".".join(["uvm_test_top"] + out)

    @staticmethod
    def depth(comps, i):            # -2: the root, -1: the test
        return Tree.path(comps, i).count(".") + 1 if i >= -1 else 0

    @staticmethod
    def valid(comps):
        return all(-1 <= c[0] < i for i, c in enumerate(comps)) and \
            len(set(map(tuple, comps))) == len(comps)


def gen_scope(rng, comps, ctx):
    """An instance pattern relative to ctx (-2: the root)."""
    base = Tree.path(comps, ctx) + "." if ctx >= -1 else ""
    below = [Tree.path(comps, i) for i in range(-1, len(comps))]
    below = [p[len(base):] for p in below if p.startswith(base)]
    below = [p for p in below if p]
    r = rng.random()
    if ctx >= -1 and r < 0.12:
        return ""
    if r < 0.3 or not below:
        return rng.choice(["*", "*", "*", "*.a", "*b*", "*.*", "?*"])
    p = rng.choice(below)
    if r < 0.55:
        return p
    if r < 0.65:
        return p + rng.choice(["*", ".*"])
    k = rng.randrange(len(p))
    if r < 0.75:
        return p[:k] + "?" + p[k + 1:]
    if r < 0.85:
        return p[:k] + "*"
    if r < 0.92:
        return "*" + p[k:]
    if ctx == -2:
        return "/" + rng.choice([r"^uvm_test_top\.a", r"b$", r"\.(a|ab)$",
                                 r"[ab]+1?$", r"x\[[01]\]"]) + "/"
    return "*" + p[-1:]


class ConfigBase(UvmScenario):
    max_steps = 60000

    # -- plan -------------------------------------------------------------
    def gen_op(self, rng, comps, me, fields):
        raise NotImplementedError

    def gen(self, rng, tier):
        big = tier != "quick"
        comps = Tree.gen(rng, rng.randint(1, 12 if big else 7))
        fields = FIELDS[:rng.randint(1, 4)]
        plan = {"comps": comps, "build": [], "connect": [], "clients": []}
        for ph, p in (("build", 0.6), ("connect", 0.25)):
            for me in range(-1, len(comps)):
                if rng.random() < p:
                    for _ in range(rng.randint(1, 4)):
                        plan[ph].append([me] + self.gen_op(rng, comps, me,
                                                           fields))
        for _ in range(rng.randint(1, 4)):
            plan["clients"].append([
                [rng.choice([0, 0, 1, 2, -1])] +
                self.gen_op(rng, comps, rng.randint(-1, len(comps) - 1),
                            fields)
                for _ in range(rng.randint(2, 30 if big else 12))])
        return plan

    def valid(self, plan):
        n = len(plan["comps"])
        ops = [o[1:] for ph in ("build", "connect") for o in plan[ph]] + [
            o[1:] for c in plan["clients"] for o in c]
        return (Tree.valid(plan["comps"])
                and all(-1 <= o[0] < n for ph in ("build", "connect")
                        for o in plan[ph])
                and all(o[0] not in ("set", "get", "ex") or -2 <= o[1] < n
                        for o in ops))

    # -- phases -----------------------------------------------------------
    def build(self, test):
        self.model = {}             # field -> [Rec], first served first
        self.keys = {}
        self.serial = 0
        self.nodes = {-1: test, -2: None}
        self.begin(test)
        self.grow(test, -1)

    def begin(self, test):
        pass

    def grow(self, comp, i):
        """Ops of a component being built; its children come half way."""
        ops = [o[1:] for o in self.plan["build"] if o[0] == i]
        self.building = i
        h = len(ops) // 2
        for o in ops[:h]:
            self.do(o, True)
        for j, (p, name) in enumerate(self.plan["comps"]):
            if p == i:
                self.nodes[j] = self.node(name, comp, j)
        for o in ops[h:]:
            self.do(o, True)

    def node(self, name, parent, j):
        c = CNode(name, parent)
        c.idx = j
        return c

    def phase_of(self, comp, ph):
        if ph == "build":
            self.grow(comp, comp.idx)
        else:
            self.connecting(comp.idx)

    def connect(self, test):
        self.connecting(-1)

    def connecting(self, i):
        for o in self.plan["connect"]:
            if o[0] == i:
                self.do(o[1:], False)

    async def main(self, test, phase):
        ctx = Cur.ctx
        ts = [ctx.spawn(self.client(c)) for c in self.plan["clients"]]
        for t in ts:
            await t

    async def client(self, ops):
        for o in ops:
            await Cur.ctx.delay(o[0])
            self.do(o[1:], False)

    # -- configuration database ------------------------------------------
    def value(self, kind):
        self.serial += 1
        if kind == "i":
            return self.serial * 10
        if kind == "same":
            return 7
        if kind == "s":
            return "v%d" % self.serial
        if kind == "o":
            return Thing("t%d" % self.serial)
        return None

    def full(self, i, inst):
        if i == -2:
            return inst
        base = Tree.path(self.plan["comps"], i)
        return base + "." + inst if inst else base

    def find(self, name, field, T=None):
        """(best match, best match if globs match anywhere in a name)"""
        out = []
        for loose in (False, True):
            rs = [r for r in self.model.get(field, [])
                  if matches(r.scope, name, loose)
                  and (T is None or isinstance(r.val, T))]
            top = max([r.prec for r in rs], default=None)
            out.append(next((r for r in rs if r.prec == top), None))
        return out

    def cset(self, i, inst, field, kind, building, old=None):
        scope = self.full(i, inst)
        prec = 1000 - (Tree.depth(self.plan["comps"], i) if building else 0)
        v = old if kind == "keep" else self.value(kind)
        UVMConfigDb.set(self.nodes[i], inst, field, v)
        key = (i, scope, field)
        q = self.model.setdefault(field, [])
        r = self.keys.get(key)
        if r is None:
            r = self.keys[key] = Rec(key, scope, prec)
        else:
            q.remove(r)
            Cur.ctx.cov("again")
        r.prec = prec
        q.insert(0, r)
        self.wrote(r, v)
        Cur.ctx.cov("set_" + ("build" if building else "later"))

    def wrote(self, r, v):
        if not r.ro and not (r.val is v or r.val == v):
            r.val, r.modified, r.when = v, True, Cur.ctx.now

    def cget(self, i, inst, field, T):
        ctx = Cur.ctx
        name = self.full(i, inst)
        out = []
        t = {"": None, "i": int, "s": str, "o": Thing}[T]
        ok = UVMConfigDb.get(self.nodes[i], inst, field, out, t)
        self.judge("get %r of %r (type %s)" % (field, name, T), ok, out,
                   self.find(name, field, t))

    def judge(self, what, ok, out, cands):
        ctx = Cur.ctx
        exp = [(True, [r.val]) if r else (False, []) for r in cands]
        got = (bool(ok), out)
        ctx.rec(what, ok)
        if exp[0] == exp[1]:
            ctx.eq(got, exp[0], "lookup", what)
            ctx.cov("got%d" % got[0])
        else:
            # a listed finding: globs match anywhere in the name
            ctx.check(got in exp, "lookup", lambda: "%s gives %r, expected "
                      "%r" % (what, got, exp[0]))
            if got != exp[0]:
                self.unanchored(what, got, exp[0])
            ctx.cov("substring")
        ctx.state(what, ok)

    def unanchored(self, what, got, want):
        pass


class ConfigLookup(ConfigBase):
    name = "config_lookup"

    def begin(self, test):
        self.sets = []

    def sweep(self, fields):
        for i in sorted(self.nodes):
            for f in fields:
                if i >= -1:
                    self.cget(i, "", f, "")

    def gen_op(self, rng, comps, me, fields):
        r = rng.random()
        f = rng.choice(fields)
        if r < 0.1:
            return ["re", -2, rng.choice([0, 1, 1, 2, 3, 5]),
                    rng.choice(["keep", "keep", "keep", "i", "same"])]
        if r < 0.14:
            return ["sweep", -2]
        if r < 0.54:
            i = me if rng.random() < 0.7 else rng.choice(
                [-2, -1, comps[me][0] if me >= 0 else -2])
            return ["set", i, gen_scope(rng, comps, i), f,
                    rng.choice(["i"] * 5 + ["same", "s", "o", "none"])]
        i = me if rng.random() < 0.6 else rng.randint(-2, len(comps) - 1)
        base = Tree.path(comps, i) + "." if i >= -1 else ""
        ps = [Tree.path(comps, j) for j in range(-1, len(comps))]
        ps = [p[len(base):] for p in ps if p.startswith(base)
              and p != base] + [rng.choice(["nope", "a", "ab.b"])]
        if i >= -1:
            ps += [""] * 3
        p = rng.choice(ps)
        if r < 0.92:
            return ["get", i, p, f, rng.choice(["", "", "", "i", "s", "o"])]
        return ["ex", i, p, f, rng.random() < 0.3]

    def do(self, op, building):
        ctx = Cur.ctx
        k, i = op[0], op[1]
        if i not in self.nodes:     # not built yet
            i = self.building
        if k == "set":
            self.cset(i, op[2], op[3], op[4], building)
            self.sets.append((i, op[2], op[3]))
        elif k == "re" and self.sets:
            # an earlier setting is repeated, mostly with its old value
            i, inst, f = self.sets[-1 - op[2] % len(self.sets)]
            r = self.keys[i, self.full(i, inst), f]
            self.cset(i, inst, f, op[3], building, r.val)
            ctx.cov("repeat_" + op[3])
            self.sweep([f])
        elif k == "re" or k == "sweep":
            self.sweep(FIELDS)
        elif k == "get":
            self.cget(i, op[2], op[3], op[4])
        else:
            name = self.full(i, op[2])
            got = UVMConfigDb.exists(self.nodes[i], op[2], op[3], op[4])
            exp = [r is not None for r in self.find(name, op[3])]
            ctx.check(bool(got) in exp, "exists", lambda: "exists %r of %r: "
                      "%r" % (op[3], name, got))
        ctx.nontrivial = True


class ConfigAnchor(ConfigLookup):
    """Reproduces the finding that globs match anywhere in a name."""
    name = "config_anchor"

    def unanchored(self, what, got, want):
        Cur.ctx.fail("unanchored", "%s gives %r, expected %r"
                     % (what, got, want))


# -- resources ------------------------------------------------------------
class Resources(ConfigBase):
    name = "resources"

    def gen_op(self, rng, comps, me, fields):
        r = rng.random()
        f = rng.choice(fields)
        i = rng.randrange(8)
        v = rng.choice(["i"] * 4 + ["same", "s", "none"])
        where = rng.choice([Tree.path(comps, j)
                            for j in range(-1, len(comps))])
        if r < 0.12:
            return ["new", gen_scope(rng, comps, -2), f, v,
                    rng.random() < 0.4]
        if r < 0.22:
            return ["rdb", gen_scope(rng, comps, -2), f, v]
        if r < 0.32:
            return ["set", me, gen_scope(rng, comps, me), f, v]
        if r < 0.46:
            return ["read", where, f]
        if r < 0.53:
            return ["wr", where, f, v]
        if r < 0.66:
            return ["hw", i, v]
        if r < 0.70:
            return ["ro", i, rng.random() < 0.4]
        if r < 0.76:
            return ["prio", i, rng.randint(0, 1)]
        if r < 0.80:
            return ["prec", i, rng.choice([998, 999, 1000, 1001])]
        if r < 0.94:
            return ["wait", i]
        if r < 0.96:
            return ["kill", i]
        return ["scope", where]

    def begin(self, test):
        self.recs = []
        root().set_report_verbosity_level(UVM_LOW)  # let errors through
        self.errors = sev_count(UVM_ERROR)
        self.waits = {}
        self.running = False

    def known(self, rec, handle):
        """The rec got found through the library as handle."""
        if rec.handle is None and all(x.handle is not handle
                                      for x in self.recs):
            rec.handle = handle
            self.recs.append(rec)
        Cur.ctx.check(rec.handle is handle, "lookup",
                      lambda: "another resource than %r was found" % (
                          rec.key,))

    def wrote(self, r, v):
        if r.ro:
            self.errors += 1
            Cur.ctx.fault("read_only_write")
        super().wrote(r, v)

    def do(self, op, building):
        ctx = Cur.ctx
        ctx.nontrivial = True
        k = op[0]
        if k == "set":
            i = op[1] if op[1] in self.nodes else self.building
            self.cset(i, op[2], op[3], op[4], building)
        elif k in ("new", "rdb"):
            rec = Rec(None, op[1], 1000)
            v = self.value(op[3])
            q = self.model.setdefault(op[2], [])
            if k == "new":
                rec.handle = UVMResource(op[2], op[1])
                self.recs.append(rec)
                rec.handle.write(v)
                (rec.handle.set_override if op[4] else rec.handle.set)()
                q.insert(0 if op[4] else len(q), rec)
            else:
                UVMResourceDb.set(op[1], op[2], v)
                q.append(rec)
            self.wrote(rec, v)
        elif k == "read":
            out = []
            ok = UVMResourceDb.read_by_name(op[1], op[2], out)
            self.judge("read %r of %r" % (op[2], op[1]), ok, out,
                       self.find(op[1], op[2]))
            self.meet(op)
        elif k == "wr":
            a, b = self.find(op[1], op[2])
            if a is b:              # (else: a listed finding, see judge)
                v = self.value(op[3])
                ok = UVMResourceDb.write_by_name(op[1], op[2], v)
                ctx.eq(bool(ok), a is not None, "write", "write %r of %r" % (
                    op[2], op[1]))
                if a is not None:
                    self.wrote(a, v)
                    self.meet(op)
        elif k == "scope":
            self.scope(op[1])
        elif self.recs:
            self.handle_op(op)
        ctx.eq(sev_count(UVM_ERROR), self.errors, "errors",
               "errors reported after %r" % (op,))
        for r in self.recs:
            ctx.check(r.handle.val is r.val or r.handle.val == r.val,
                      "value", lambda: "resource %r has %r, should have %r"
                      % (r.scope, r.handle.val, r.val))

    def meet(self, op):
        h = UVMResourceDb.get_by_name(op[1], op[2], False)
        a, b = self.find(op[1], op[2])
        if a is b and a is not None:
            self.known(a, h)

    def handle_op(self, op):
        ctx = Cur.ctx
        k = op[0]
        r = self.recs[op[1] % len(self.recs)]
        if k == "hw":
            v = self.value(op[2])
            r.handle.write(v)
            self.wrote(r, v)
        elif k == "ro" and self.running:
            # (errors while building would stop the run)
            (r.handle.set_read_only if op[2] else r.handle.set_read_write)()
            r.ro = op[2]
            ctx.eq(bool(r.handle.is_read_only()), r.ro, "read_only",
                   "is_read_only")
        elif k == "prio":
            UVMResourcePool.get().set_priority_name(
                r.handle, PRI_HIGH if op[2] else PRI_LOW)
            for q in self.model.values():
                if r in q:
                    q.remove(r)
                    q.insert(0 if op[2] else len(q), r)
            ctx.cov("prio%d" % op[2])
        elif k == "prec":
            r.prec = r.handle.precedence = op[2]
        elif k == "wait":
            if not r.waiting:
                r.waiting = True
                self.waits[id(r)] = (r, ctx.spawn(self.waiter(r)))
        elif k == "kill" and id(r) in self.waits and r.waiting:
            self.waits.pop(id(r))[1].kill()
            r.waiting = False
            ctx.fault("waiter_killed")

    async def waiter(self, r):
        ctx = Cur.ctx
        at, old = ctx.now, r.modified
        await r.handle.wait_modified()
        r.waiting = False
        ctx.check(r.modified, "wait", lambda: "wait_modified returned but "
                  "nothing was written (%r)" % r.scope)
        ctx.eq(ctx.now, max(at, r.when), "wait",
               "time at which wait_modified returned")
        r.modified = False
        ctx.cov("waited%d" % (at != ctx.now))
        ctx.rec("waited", r.scope)

    def scope(self, name):
        ctx = Cur.ctx
        rq = UVMResourcePool.get().lookup_scope(name)
        rq = [rq[i] for i in range(len(rq))]
        for loose in (False, True):
            exp = [r for q in self.model.values() for r in q
                   if matches(r.scope, name, loose)]
            if len(exp) == len([h for h in rq if h.get_name() in FIELDS]):
                break
        else:
            ctx.fail("scope", "%d resources in scope %r, expected %d"
                     % (len(rq), name, len(exp)))
        for r in exp:
            if r.handle is not None:
                ctx.check(any(h is r.handle for h in rq), "scope",
                          lambda: "%r is missing in scope %r" % (r.scope,
                                                                 name))
        out = UVMResourcePool.sort_by_precedence(rq)
        want = sorted(rq, key=lambda h: -h.precedence)
        ctx.check([id(h) for h in out] == [id(h) for h in want], "sort",
                  lambda: "sorted by precedence: %r, expected %r" % (
                      [(h.get_scope(), h.precedence) for h in out],
                      [(h.get_scope(), h.precedence) for h in want]))
        if rq:
            ctx.check(UVMResourcePool.get().get_highest_precedence(rq)
                      is want[0], "sort", lambda: "highest precedence")
        ctx.cov("scope")

    async def main(self, test, phase):
        self.running = True
        await super().main(test, phase)
        ctx = Cur.ctx
        await ctx.delay(3)
        for r, t in self.waits.values():
            ctx.check(not (r.waiting and r.modified), "wait", lambda:
                      "a process still waits for %r to be modified"
                      % r.scope)
            if r.waiting:
                t.kill()


# -- automatic configuration ----------------------------------------------
class AutoA(CNode):
    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.f0, self.f01, self.g, self.obj = -1, -1, "none", None

    def build_phase(self, phase):
        if Cur.scn.configured(self):
            super().build_phase(phase)
        else:
            self.m_build_done = True
            Cur.scn.phase_of(self, "build")


uvm_component_utils_begin(AutoA)
uvm_field_int("f0")
uvm_field_int("f01")
uvm_field_string("g")
uvm_field_object("obj")
uvm_component_utils_end(AutoA)


class AutoB(AutoA):
    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.f1, self.f1g = -1, "none"


uvm_component_utils_begin(AutoB)
uvm_field_int("f1")
uvm_field_string("f1g")
uvm_component_utils_end(AutoB)


class AutoC(AutoB):
    """No fields of its own."""


uvm_component_utils(AutoC)

KIND = {"f0": "i", "f01": "i", "f1": "i", "g": "s", "f1g": "s", "obj": "o",
        "f": "i", "0": "i", "1": "i"}
HAS = {AutoA: ["f0", "f01", "g", "obj"],
       AutoB: ["f0", "f01", "g", "obj", "f1", "f1g"],
       AutoC: ["f0", "f01", "g", "obj", "f1", "f1g"], CNode: []}


class AutoConfig(ConfigBase):
    name = "auto_config"

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        n = len(plan["comps"])
        plan["kinds"] = [rng.randrange(4) for _ in range(n)]
        plan["skip"] = [j for j in range(n) if rng.random() < 0.1]
        plan["loud"] = rng.random() < 0.2
        plan["clients"] = []
        return plan

    def valid(self, plan):
        return super().valid(plan) and len(plan["kinds"]) == len(
            plan["comps"])

    def gen_op(self, rng, comps, me, fields):
        i = me if rng.random() < 0.7 else rng.choice(
            [-2, -1, comps[me][0] if me >= 0 else -2])
        f = rng.choice(sorted(KIND))
        return ["set", i, gen_scope(rng, comps, i), f]

    def begin(self, test):
        UVMComponent.print_config_matches = self.plan["loud"]
        self.done = {}

    def do(self, op, building):
        i = op[1] if op[1] in self.nodes else self.building
        self.cset(i, op[2], op[3], KIND[op[3]], building)

    def node(self, name, parent, j):
        k = [CNode, AutoA, AutoB, AutoC][self.plan["kinds"][j]]
        c = k(name, parent)
        c.idx = j
        return c

    def configured(self, comp):
        return comp.idx not in self.plan["skip"]

    def phase_of(self, comp, ph):
        ctx = Cur.ctx
        if ph == "build":
            vals = {}
            for f in HAS[type(comp)]:
                got = getattr(comp, f)
                dflt = {"i": -1, "s": "none", "o": None}[KIND[f]]
                cands = self.find(comp.get_full_name(), f)
                exp = [r.val if r and self.configured(comp) else dflt
                       for r in cands]
                what = "field %s of %s" % (f, comp.get_full_name())
                if exp[0] is exp[1]:
                    ctx.eq(got, exp[0], "field", what)
                    ctx.cov("set" if got is not dflt else "default")
                else:
                    ctx.check(got in exp, "field", lambda: "%s is %r, "
                              "expected %r" % (what, got, exp[0]))
                    if got != exp[0]:
                        self.unanchored(what, got, exp[0])
                vals[f] = got
                ctx.nontrivial = True
                ctx.state(f, got is not dflt)
            ctx.rec(comp.get_full_name(), sorted(k for k in vals))
            self.done[comp.idx] = vals
            super().phase_of(comp, ph)
        else:
            super().phase_of(comp, ph)
            # later settings do not reach a component that has been built
            for f, v in self.done[comp.idx].items():
                ctx.check(getattr(comp, f) is v, "field", lambda:
                          "field %s of %s changed after the build phase"
                          % (f, comp.get_full_name()))
