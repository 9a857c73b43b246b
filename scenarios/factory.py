"""The factory: what gets created, under any history of registrations and
type and instance overrides, while a testbench is built and run."""
import re

from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario, root
from scenarios.config import Tree, glob_re
from uvm.base.uvm_factory import UVMFactory


class FC(UVMComponent):
    idx = None

    def build_phase(self, phase):
        super().build_phase(phase)
        Cur.scn.built(self)


def comp(name, base):
    t = type(name, (base,), {})
    uvm_component_utils(t)
    return t


uvm_component_utils(FC)
C0 = comp("C0", FC)
C1 = comp("C1", C0)
C2 = comp("C2", C0)
C3 = comp("C3", C1)
C10 = comp("C10", C0)
COMPS = {"C0": C0, "C1": C1, "C2": C2, "C3": C3, "C10": C10}


class FO(UVMObject):
    pass


def obj(name, base):
    t = type(name, (base,), {})
    uvm_object_utils(t)
    return t


O0 = obj("O0", FO)
O1 = obj("O1", O0)
O2 = obj("O2", O0)
O3 = obj("O3", O2)
OBJS = {"O0": O0, "O1": O1, "O2": O2, "O3": O3}
LATE = ["L0", "L1"]                     # object types defined while running


class Overrides(object):
    """Reference: which type stands for another one."""

    def __init__(self):
        self.types = {}                 # requested -> produced
        self.insts = {}                 # requested -> [(path, produced)]
        self.known = set(COMPS) | set(OBJS)

    def resolve(self, t, path):
        """(type, None) or (type, types in and before the loop)."""
        seen = []
        while True:
            if t in seen:
                return t, seen
            nxt = None
            if path:
                for p, o in self.insts.get(t, []):
                    if re.fullmatch(glob_re(p), path, re.S):
                        nxt = o
                        break
            if nxt is None:
                nxt = self.types.get(t)
            if nxt is None or nxt == t:
                return t, None
            seen.append(t)
            t = nxt


class FactoryCreate(UvmScenario):
    name = "factory"
    max_steps = 60000

    # -- plan -------------------------------------------------------------
    def pool(self, rng):
        return rng.choice([sorted(COMPS), sorted(COMPS),
                           sorted(OBJS) + LATE])

    def gen_path(self, rng, comps, kind):
        ps = [Tree.path(comps, i) for i in range(-1, len(comps))]
        if kind == "o":
            ps = [p + "." + n for p in ps for n in ("x", "y")] + ["x", "y"]
        p = rng.choice(ps)
        r = rng.random()
        k = rng.randrange(len(p))
        if r < 0.35:
            return p
        if r < 0.45:
            return "*"
        if r < 0.6:
            return "*" + p[k:]
        if r < 0.75:
            return p[:k] + "*"
        if r < 0.85:
            return p[:k] + "?" + p[k + 1:]
        if r < 0.92:
            return "*." + p.split(".")[-1]
        return p + ".*"

    def gen_op(self, rng, comps, run):
        r = rng.random()
        names = self.pool(rng)
        a, b = rng.choice(names), rng.choice(names)
        kind = "c" if a in COMPS else "o"
        how = rng.choice(["reg", "factory", "comp", "name", "name"])
        if r < 0.22:
            return ["type", a, b, rng.random() < 0.7, how]
        if r < 0.5:
            return ["inst", a, b, self.gen_path(rng, comps, kind), how,
                    rng.randint(-1, len(comps) - 1)
                    if rng.random() < 0.3 else -2]
        if r < 0.54:
            a = rng.choice(["C*", "C?", "C1*"] if kind == "c" else
                           ["O?", "O*"])
            return ["inst", a, b,
                    self.gen_path(rng, comps, kind), "name", -2]
        if r < 0.86:
            return ["make", rng.choice(sorted(OBJS) * 2 + LATE + ["N0"]),
                    rng.choice(["reg", "name", "comp", "name0"]),
                    rng.randint(-2, len(comps) - 1), rng.choice("xyz")]
        if r < 0.93:
            return ["late", rng.choice(LATE)]
        return ["look", a, rng.randint(-2, len(comps) - 1),
                rng.choice(["debug", "debug", "print", "find", "exists"])]

    def gen(self, rng, tier):
        big = tier != "quick"
        comps = Tree.gen(rng, rng.randint(1, 14 if big else 8))
        plan = {"comps": comps, "how": [], "build": [], "clients": []}
        for _ in comps:
            plan["how"].append([rng.choice(sorted(COMPS)), rng.choice(
                ["reg", "reg", "name", "comp"])])
        for me in range(-1, len(comps)):
            if rng.random() < 0.55:
                for _ in range(rng.randint(1, 4)):
                    plan["build"].append([me] + self.gen_op(rng, comps,
                                                            False))
        for _ in range(rng.randint(1, 3)):
            plan["clients"].append([
                [rng.choice([0, 0, 1, 2, -1])] + self.gen_op(rng, comps, True)
                for _ in range(rng.randint(2, 30 if big else 12))])
        if rng.random() < 0.15:                 # a long chain, or a ring
            names = sorted(OBJS) + LATE
            rng.shuffle(names)
            ops = [[0, "late", n] for n in LATE] + [
                [0, "type", a, b, True, rng.choice(["reg", "name"])]
                for a, b in zip(names, names[1:])]
            if rng.random() < 0.7:
                ops.append([0, "type", names[-1],
                            rng.choice(names[:-1]), True, "factory"])
            ops += [[0, "make", n, rng.choice(["reg", "name"]), -2, "x"]
                    for n in names]
            plan["clients"][0] += ops
        return plan

    def valid(self, plan):
        n = len(plan["comps"])
        ops = [o[1:] for o in plan["build"]] + [
            o[1:] for c in plan["clients"] for o in c]
        return Tree.valid(plan["comps"]) and len(plan["how"]) == n and all(
            -1 <= o[0] < n for o in plan["build"]) and all(
            o[0] not in ("type", "inst")
            or (o[1][0] == "C") == (o[2][0] == "C") for o in ops) and all(
            o[0] not in ("make", "look", "inst")
            or o[{"make": 3, "look": 2, "inst": 5}[o[0]]] < n for o in ops)

    # -- bench ------------------------------------------------------------
    def build(self, test):
        self.m = Overrides()
        self.cls = dict(COMPS)
        self.cls.update(OBJS)
        self.nodes = {-1: test}
        self.running = False
        self.f = UVMFactory.get()
        root().set_report_verbosity_level(UVM_LOW)
        self.grow(test, -1)

    def built(self, c):
        self.grow(c, c.idx)

    def grow(self, c, i):
        ops = [o[1:] for o in self.plan["build"] if o[0] == i]
        h = len(ops) // 2
        for o in ops[:h]:
            self.do(o)
        for j, (p, name) in enumerate(self.plan["comps"]):
            if p == i:
                self.child(c, j, name)
        for o in ops[h:]:
            self.do(o)

    def child(self, parent, j, name):
        ctx = Cur.ctx
        t, how = self.plan["how"][j]
        path = parent.get_full_name() + "." + name
        want, loop = self.m.resolve(t, path)
        if loop:
            c = self.cls[t](name, parent)       # (an error would end the run)
            want = t
        elif how == "reg":
            c = self.cls[t].type_id.create(name, parent)
        elif how == "name":
            c = self.f.create_component_by_name(t, parent.get_full_name(),
                                                name, parent)
        else:
            c = parent.create_component(t, name)
        ctx.eq(type(c).__name__, want, "component", "type of %s, a %s was "
               "requested" % (path, t))
        ctx.eq((c.get_full_name(), c.get_type_name()), (path, want),
               "component", "name and type name")
        ctx.check(c.get_parent() is parent and parent.get_child(name) is c,
                  "component", "place of %s" % path)
        c.idx = j
        self.nodes[j] = c
        ctx.cov("comp_" + how + ("_other" if want != t else ""))
        ctx.nontrivial = True
        ctx.state(path, want)

    async def main(self, test, phase):
        ctx = Cur.ctx
        self.running = True
        ts = [ctx.spawn(self.client(c)) for c in self.plan["clients"]]
        for t in ts:
            await t

    async def client(self, ops):
        for o in ops:
            await Cur.ctx.delay(o[0])
            self.do(o[1:])

    # -- operations -------------------------------------------------------
    def do(self, op):
        getattr(self, "op_" + op[0])(*op[1:])

    def counted(self, f, errors=0, what=""):
        """Run f, expecting so many error messages at least."""
        n = sev_count(UVM_ERROR)
        r = f()
        n = sev_count(UVM_ERROR) - n
        Cur.ctx.check(n == 0 if not errors else n >= errors, "errors",
                      lambda: "%d errors reported by %s, expected %d" % (
                          n, what, errors))
        return r

    def anyone(self):
        return self.nodes[max(self.nodes)]

    def op_type(self, a, b, replace, how):
        ctx, m = Cur.ctx, self.m
        if b not in m.known:
            if self.running:
                self.counted(lambda: self.f.set_type_override_by_name(
                    a, b, replace), 1, "an override with an unknown type")
            return
        if a == b:
            return
        if a not in m.known or how == "name":
            self.counted(lambda: self.f.set_type_override_by_name(
                a, b, replace), 0, "override")
        else:
            A, B = self.cls[a].type_id.get(), self.cls[b].type_id.get()
            if how == "factory":
                self.f.set_type_override_by_type(A, B, replace)
            elif how == "comp":
                self.anyone().set_type_override_by_type(A, B, replace)
            else:
                self.cls[a].type_id.set_type_override(B, replace)
        if replace or a not in m.types:
            m.types[a] = b
        ctx.cov("type_override" + ("" if a in m.known else "_early"))
        ctx.rec("type", a, b, replace)

    def op_inst(self, a, b, path, how, rel):
        ctx, m = Cur.ctx, self.m
        wild = "*" in a or "?" in a
        if b not in m.known:
            if self.running:
                self.counted(lambda: self.f.set_inst_override_by_name(
                    a, b, path), 1, "an override with an unknown type")
            return
        if how == "reg" and rel in self.nodes and a in m.known:
            c = self.nodes[rel]
            self.cls[a].type_id.set_inst_override(
                self.cls[b].type_id.get(), path, c)
            path = c.get_full_name() + "." + path
        elif a not in m.known or how == "name":
            self.counted(lambda: self.f.set_inst_override_by_name(
                a, b, path), 0, "override")
        elif how == "factory":
            self.f.set_inst_override_by_type(
                self.cls[a].type_id.get(), self.cls[b].type_id.get(), path)
        else:
            self.cls[a].type_id.set_inst_override(
                self.cls[b].type_id.get(), path)
        for t in ([t for t in sorted(m.known)
                   if re.fullmatch(glob_re(a), t)] if wild else [a]):
            m.insts.setdefault(t, []).append((path, b))
        ctx.cov("inst_override" + ("_wild" if wild else "" if a in m.known
                                   else "_early"))
        ctx.rec("inst", a, b, path)

    def op_late(self, name):
        """A type becomes known."""
        if name not in self.m.known:
            self.cls[name] = obj(name, O0)
            self.m.known.add(name)
            Cur.ctx.cov("late_type")
            Cur.ctx.fault("late_registration")

    def op_make(self, t, how, where, name):
        ctx, m = Cur.ctx, self.m
        c = self.nodes.get(where)
        base = c.get_full_name() if c is not None else ""
        path = base + "." + name if base else name
        if t not in m.known and how in ("reg", "comp"):
            how = "name"
        want, loop = m.resolve(t, path)
        if loop and not self.running:
            return
        if how == "reg":
            f = lambda: self.cls[t].type_id.create(name, c)  # noqa: E731
        elif how == "comp" and c is not None:
            f = lambda: c.create_object(t, name)             # noqa: E731
        elif how == "name0":
            path = base                         # the name comes later
            want, loop = m.resolve(t, path)
            if loop and not self.running:
                return
            f = lambda: self.f.create_object_by_name(t, base)  # noqa: E731
            name = ""
        else:
            f = lambda: self.f.create_object_by_name(        # noqa: E731
                t, base, name)
        if t not in m.known and want == t:
            ctx.check(self.counted(f) is None, "unknown", lambda:
                      "an object of the unknown type " + t)
            ctx.cov("unknown")
            return
        o = self.counted(f, 1 if loop else 0, "creating a " + t)
        ctx.check(o is not None, "object", lambda: "no %s as %r" % (t, path))
        if loop:                # one of those in the loop
            ctx.check(type(o).__name__ in loop, "object", lambda: "a %s for "
                      "%r, a %s was requested" % (type(o).__name__, path, t))
            want = type(o).__name__
        ctx.eq(type(o).__name__, want, "object", "type of %r, a %s was "
               "requested (%s)" % (path, t, how))
        ctx.eq((o.get_name(), o.get_type_name()), (name, want), "object",
               "name and type name")
        ctx.nontrivial = True
        ctx.cov("object" + ("_loop" if loop else "_other" if want != t
                            else ""))
        ctx.rec("make", t, path, want)
        ctx.state(t, path, want)

    def op_look(self, t, where, how):
        """Asking changes nothing."""
        ctx, m = Cur.ctx, self.m
        c = self.nodes.get(where)
        base = c.get_full_name() if c is not None else ""
        want, loop = m.resolve(t, base + ".x" if base else "x")
        if loop or t not in m.known:
            return
        del ctx.messages[:]
        W = self.cls[t].type_id.get()
        if how == "debug":
            if len(base) % 2:
                self.f.debug_create_by_type(W, base, "x")
            else:
                self.f.debug_create_by_name(t, base, "x")
            said = [s for s in ctx.messages if "will produce an object" in s]
            ctx.check(len(said) == 1 and "type '%s'\n" % want in said[0],
                      "debug", lambda: "%s should stand for %s: %r" % (
                          want, t, ctx.messages))
        elif how == "print":
            self.f.print_factory(0)
            text = "\n".join(ctx.messages)
            for a, b in m.types.items():
                ctx.check(re.search(r"(?m)^  %s +%s *$" % (a, b), text),
                          "print", lambda: "override %s by %s is not "
                          "listed: %s" % (a, b, text))
            for a, l in m.insts.items():
                for p, b in l:
                    ctx.check(re.search(r"(?m)^ +%s +%s +%s *$" % (
                        a, re.escape(p), b), text), "print", lambda:
                        "override %s by %s at %r is not listed: %s" % (
                            a, b, p, text))
        elif how == "find":
            ctx.check(self.f.find_wrapper_by_name(t) is W, "find",
                      lambda: "find_wrapper_by_name(%r)" % t)
        else:
            for p, b in m.insts.get(t, []):
                if t in LATE:
                    continue        # (set before its type was there?)
                ctx.eq(bool(self.f.check_inst_override_exists(
                    W, self.cls[b].type_id.get(), p)), True, "exists",
                    "override of %s by %s at %r" % (t, b, p))
        ctx.cov("look_" + how)
