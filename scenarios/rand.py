"""Random objects used by several processes: constraints, callbacks, and the
random stream of each object."""
import itertools
import random

from simkit.uvmkit import *
from simkit.uvmkit import Cur, Delays, UvmScenario
from uvm.base.uvm_exceptions import RandomizeError

VARS = ["a", "b", "c"]
FORMS = {                               # (arguments, condition on them)
    "a_mod": (("a",), lambda k, a: a % 3 == k % 3),
    "b_hi": (("b",), lambda k, b: b > k),
    "c_not": (("c",), lambda k, c: c != k),
    "a_max": (("a",), lambda k, a: a <= k),
    "ab": (("a", "b"), lambda k, a, b: a < b + k),
    "bc": (("b", "c"), lambda k, b, c: (b + c) % 4 != k % 4),
    "ac": (("a", "c"), lambda k, a, c: a != c),
    "abc": (("a", "b", "c"), lambda k, a, b, c: a + b + c == 2 * k),
    "a_knob": (("a", "knob"), lambda k, a, knob: a != knob % 5),
}


def make(form, k):
    names, f = FORMS[form]
    env = {"f": f}
    exec("def cond(%s): return f(%d, %s)" % (", ".join(names), k,
                                             ", ".join(names)), env)
    return env["cond"]


class Rnd(UVMObject):
    """A random object as the plan describes it."""

    def __init__(self, name, spec, idx, subs):
        super().__init__(name)
        self.idx = idx
        self.spec = spec
        self.calls = []
        self.knob = 0
        self.draws = []                 # what each randomization gave
        self.payload = []
        for i, v in enumerate(VARS[:spec["n"]]):
            setattr(self, v, -1)
            d = spec["dom"][i]
            self.rand(v, range(*d) if d else ["x", "y", "z"])
        for i, s in enumerate(subs):
            if spec["byname"]:
                setattr(self, "sub%d" % i, s)
                self.rand("sub%d" % i)
            else:
                self.rand(s)
        for form, k in spec["cons"]:
            self.constraint(make(form, k))

    def values(self):
        return [getattr(self, v) for v in VARS[:self.spec["n"]]]

    def pre_randomize(self):
        if self.calls is not None:
            self.calls.append(("pre", self.idx))
        self.knob += self.spec["step"]
        if self.spec["draw"] & 1:
            self.payload = [random.randrange(256)]

    def post_randomize(self):
        if self.calls is not None:
            self.calls.append(("post", self.idx))
        if self.spec["draw"] & 2:
            self.payload = [random.randrange(256) for _ in range(3)]
        self.draws.append((self.values(), self.payload))


class Randomize(UvmScenario):
    name = "randomize"
    max_steps = 60000

    # -- plan -------------------------------------------------------------
    def gen(self, rng, tier):
        big = tier != "quick"
        objs = []
        for i in range(rng.randint(1, 5)):
            n = rng.randint(1, 3)
            forms = [f for f, (a, _) in FORMS.items()
                     if all(v == "knob" or v in VARS[:n] for v in a)]
            rng.shuffle(forms)
            # (one condition per set of variables)
            cons = self.distinct([[f, rng.randint(0, 8)] for f in
                                  forms[:rng.choice([0, 1, 1, 2, 3])]])
            dom = [[rng.randint(0, 2), rng.randint(4, 9)] for _ in range(n)]
            if n == 1 and not cons and rng.random() < 0.3:
                dom = [None]
            objs.append({
                "n": n, "dom": dom, "cons": cons,
                "subs": sorted(rng.sample(range(i), rng.randint(0, min(2, i))))
                if rng.random() < 0.5 else [],
                "byname": rng.random() < 0.7, "step": rng.choice([0, 0, 1]),
                "draw": rng.choice([0, 0, 0, 1, 2])})
        clients = [[[Delays.gen(rng, 2)] + self.gen_op(rng, objs)
                    for _ in range(rng.randint(1, 20 if big else 8))]
                   for _ in range(rng.randint(1, 4))]
        return {"seed": rng.getrandbits(30), "objs": objs, "clients": clients}

    @staticmethod
    def key(form):
        return tuple(v for v in FORMS[form][0] if v in VARS)

    def distinct(self, cons):
        out = {}
        for c in cons:
            out.setdefault(self.key(c[0]), c)
        return list(out.values())

    def gen_op(self, rng, objs):
        i = rng.randrange(len(objs))
        r = rng.random()
        if r < 0.5:
            return ["rand", i, rng.random() < 0.8]
        if r < 0.8 and objs[i]["dom"] != [None]:
            forms = [f for f, (a, _) in FORMS.items() if all(
                v == "knob" or v in VARS[:objs[i]["n"]] for v in a)]
            rng.shuffle(forms)
            return ["with", i, self.distinct(
                [[f, rng.randint(0, 8)] for f in
                 forms[:rng.choice([0, 1, 1, 2])]])]
        if r < 0.88:
            return ["mode", i, rng.random() < 0.6]
        return [rng.choice(["draw", "new"]), i]

    def valid(self, plan):
        n = len(plan["objs"])
        for i, o in enumerate(plan["objs"]):
            vs = set(VARS[:o["n"]]) | {"knob"}
            if len(o["dom"]) != o["n"] or any(s >= i for s in o["subs"]) or \
                    any(d and (len(d) != 2 or d[0] >= d[1])
                        for d in o["dom"]) or any(
                        not set(FORMS[f][0]) <= vs for f, _ in o["cons"]):
                return False
            if None in o["dom"] and (o["n"] > 1 or o["cons"]):
                return False
        for c in plan["clients"]:
            for op in c:
                if op[2] >= n:
                    return False
                if op[1] == "with":
                    o = plan["objs"][op[2]]
                    vs = set(VARS[:o["n"]]) | {"knob"}
                    if o["dom"] == [None] or any(
                            not set(FORMS[f][0]) <= vs for f, _ in op[3]):
                        return False
        return n > 0

    # -- run --------------------------------------------------------------
    def make_all(self, subs):
        random.seed(self.plan["seed"])
        out = []
        for i, s in enumerate(self.plan["objs"]):
            out.append(Rnd("o%d" % i, s, i,
                           [out[j] for j in s["subs"]] if subs else []))
        return out

    async def main(self, test, phase):
        ctx = Cur.ctx
        self.objs = self.make_all(True)
        self.calls = []
        for o in self.objs:
            o.calls = self.calls
        self.on = [True] * len(self.objs)
        self.knobs = [0] * len(self.objs)
        self.story = [[] for _ in self.objs]    # what each has been through
        ts = [ctx.spawn(self.client(c)) for c in self.plan["clients"]]
        for t in ts:
            await t
        self.judge()
        ctx.nontrivial = sum(map(len, self.story)) > 1

    async def client(self, ops):
        for d, *op in ops:
            await Cur.ctx.delay(d)
            self.do(op)

    def do(self, op):
        ctx, kind, o = Cur.ctx, op[0], self.objs[op[1]]
        ctx.cov(kind)
        if kind == "draw":
            random.random()
        elif kind == "new":
            UVMObject("other")
        elif kind == "mode":
            o.rand_mode(op[2])
            self.on[op[1]] = op[2]
        else:
            inline = op[2] if kind == "with" else []
            self.calls[:] = []
            want = []
            ok = self.expect(op[1], inline, kind == "with" or op[2], want,
                             kind)
            before = [x.values() for x in self.objs]
            try:
                if kind == "with":
                    r = o.randomize_with(*[make(f, k) for f, k in inline])
                else:
                    r = o.randomize() if op[2] else o.randomize(False)
                ctx.check(bool(r), "result", "randomize() returned %r" % r)
                got = True
            except RandomizeError:
                got = False
                ctx.fault("unsolvable")
            ctx.eq(got, ok, "solvable", "%s of object %d with %r" % (
                kind, op[1], inline))
            ctx.eq(self.calls, want, "callbacks", "of %s of object %d" % (
                kind, op[1]))
            done = [i for what, i in want if what == "post"]
            for i, x in enumerate(self.objs):
                if i not in done:
                    ctx.eq(x.values(), before[i], "untouched",
                           "values of object %d after %s of %d" % (
                               i, kind, op[1]))
                else:
                    self.legal(i, x, inline if i == op[1] else [])
            ctx.rec(kind, op[1], str(o.values()))

    def expect(self, i, inline, recurse, want, kind):
        """Which callbacks are called; whether there is a solution."""
        if not self.on[i]:
            return True
        spec = self.plan["objs"][i]
        want.append(("pre", i))
        self.knobs[i] += spec["step"]
        if recurse:
            for j in spec["subs"]:
                if not self.expect(j, [], True, want, "rand"):
                    self.story[i].append(("pre", []))
                    return False
        self.story[i].append((kind, inline))
        if not self.solvable(i, inline):
            return False
        want.append(("post", i))
        return True

    def conds(self, i, inline):
        cons = {self.key(f): (f, k) for f, k in self.plan["objs"][i]["cons"]}
        cons.update({self.key(f): (f, k) for f, k in inline})
        return list(cons.values())

    def holds(self, i, inline, vals):
        env = dict(zip(VARS, vals), knob=self.knobs[i])
        return all(FORMS[f][1](k, *[env[v] for v in FORMS[f][0]])
                   for f, k in self.conds(i, inline))

    def solvable(self, i, inline):
        s = self.plan["objs"][i]
        return any(self.holds(i, inline, v) for v in itertools.product(
            *[range(*d) if d else "xyz" for d in s["dom"]]))

    def legal(self, i, x, inline):
        ctx, s = Cur.ctx, self.plan["objs"][i]
        vals = x.values()
        for v, d in zip(vals, s["dom"]):
            ctx.check(v in (range(*d) if d else "xyz"), "domain",
                      "object %d: %r is not in %r" % (i, v, d))
        ctx.check(self.holds(i, inline, vals), "constraint", lambda:
                  "object %d: %r with %r" % (i, vals, self.conds(i, inline)))

    def judge(self):
        """Each object alone, from the same seed, draws the same values."""
        ctx = Cur.ctx
        for i in range(len(self.objs)):
            o = self.make_all(False)[i]
            for kind, inline in self.story[i]:
                try:
                    if kind == "pre":
                        o.pre_randomize()
                    elif kind == "with":
                        o.randomize_with(*[make(f, k) for f, k in inline])
                    else:
                        o.randomize()
                except RandomizeError:
                    pass
            ctx.eq(self.objs[i].draws, o.draws, "stream", "values of object "
                   "%d among others and (want) alone" % i)
            ctx.state(i, len(self.story[i]))
