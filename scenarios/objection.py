"""UVMObjection: hierarchical counting, drain times, re-raise during drain."""
import gc
import re
from simkit.uvmkit import *
from simkit.uvmkit import Cur, Delays, UvmScenario, root
from uvm.base.uvm_objection import UVMObjection
from uvm.seq.uvm_sequence import UVMSequence
from uvm.seq.uvm_sequencer import UVMSequencer


class Node(UVMComponent):
    """A component that reports every objection callback it gets."""

    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.idx = None
        self.cb = None

    def raised(self, objection, source_obj, description, count):
        if self.cb:
            self.cb.on_event(self, objection, "raised", source_obj, count)

    def dropped(self, objection, source_obj, description, count):
        if self.cb:
            self.cb.on_event(self, objection, "dropped", source_obj, count)

    async def all_dropped(self, objection, source_obj, description, count):
        if self.cb:
            await self.cb.on_all_dropped(self, objection, source_obj, count)


class Sqr(UVMSequencer):
    raised = Node.raised
    dropped = Node.dropped
    all_dropped = Node.all_dropped

    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.cb = None


class ObjModel(object):
    """Executable reference of the documented semantics: totals propagate to
    the parent at once when raised, after drain time when they drop to 0, and
    a raise during the drain cancels it."""

    def __init__(self, parent, drain, cbt):
        self.parent = parent        # key -> parent key (top -> None)
        self.drain = drain
        self.cbt = cbt
        self.src = dict((k, 0) for k in parent)
        self.tot = dict((k, 0) for k in parent)
        self.pend = {}              # key -> (expiry, count)
        self.fired = []             # (key, time) completed drains
        self.zero_at = {}           # key -> time the running drain began

    def up(self, c, n, sign, now):
        p = self.parent[c]
        if p is not None:
            if sign > 0:
                self.raise_(p, n, now)
            else:
                self.drop(p, n, now)

    def raise_(self, c, n, now):
        self.tot[c] += n
        if c in self.pend:
            exp, cnt = self.pend.pop(c)
            d = n - cnt
            if d > 0:
                self.up(c, d, 1, now)
            elif d < 0:
                self.up(c, -d, -1, now)
        else:
            self.up(c, n, 1, now)

    def drop(self, c, n, now):
        self.tot[c] -= n
        if self.tot[c] == 0:
            self.pend[c] = (now + self.drain[c] + self.cbt[c], n)
            self.zero_at[c] = now
        else:
            self.up(c, n, -1, now)

    def advance(self, now):
        while True:
            due = [(e, c) for c, (e, n) in self.pend.items() if e <= now]
            if not due:
                return
            e, c = min(due, key=lambda x: (x[0], str(x[1])))
            n = self.pend.pop(c)[1]
            self.fired.append((c, e))
            self.up(c, n, -1, e)


def gen_tree(rng, n):
    """parents[i] < i; -1 is the test itself."""
    return [rng.randint(-1, i - 1) for i in range(n)]


class ObjectionTree(UvmScenario):
    """A tree of components (plus a sequence on a sequencer and a plain
    object) raising and dropping one stand-alone objection from concurrent
    tasks; after every time step all counts are compared to the model."""
    name = "objection_tree"
    drains = False
    max_steps = 60000

    def gen(self, rng, tier):
        n = rng.randint(1, 6)
        parents = gen_tree(rng, n)
        nact = rng.randint(1, 5)
        acts = []
        for _ in range(nact):
            who = rng.choice(list(range(-1, n)) + ["seq", "obj", "top"])
            ops = []
            held = 0
            for _ in range(rng.randint(1, 6 if tier == "quick" else 20)):
                d = rng.choice([0, 0, -1, -2, -3, 1, 1, 2, 3])
                if held and rng.random() < 0.55:
                    k = rng.choice([1, held, rng.randint(1, held)])
                    ops.append([d, "drop", k])
                    held -= k
                else:
                    k = rng.choice([1, 1, 1, 2, 3])
                    ops.append([d, "raise", k])
                    held += k
                if rng.random() < 0.3:
                    # the same object, at the same instant, another objection
                    ops.append([rng.choice([0, 0, 0, -1, 1]),
                                rng.choice(["raise2", "drop2"]), 1])
            acts.append({"who": who, "ops": ops,
                         "end": rng.choice([0, -1, 1, 2])})
        drain = {}
        cbt = {}
        if self.drains:
            # action times are multiples of 10; the drains along any path add
            # up to less than 10, so no drain ends at the time of an action
            for k in list(range(-1, n)) + ["top", "sqr"]:
                if rng.random() < 0.5:
                    drain[str(k)] = rng.choice([1, 1])
                if rng.random() < 0.25 and k != "top":
                    cbt[str(k)] = 1 if rng.random() < 0.5 else 0
        return {"parents": parents, "acts": acts, "drain": drain, "cbt": cbt,
                "sqr_at": rng.randint(-1, n - 1),
                "clear": rng.choice([None] * 4 + [rng.randint(0, 6)]),
                "over": rng.random() < 0.25,
                "waits": [[rng.choice(["raised", "dropped", "all"]),
                           rng.choice([-1, "top"] + list(range(n)))]
                          for _ in range(rng.choice([0, 0, 1, 2, 3]))]}

    # -- bench -----------------------------------------------------------
    def build(self, top):
        p = self.plan
        self.comps = {-1: top}
        for i, par in enumerate(p["parents"]):
            par = par if par < i else -1
            c = Node("n%d" % i, self.comps[par])
            c.idx = i
            c.cb = self
            self.comps[i] = c
        at = p["sqr_at"] if p["sqr_at"] in self.comps else -1
        self.sqr = Sqr("sqr", self.comps[at])
        self.sqr.cb = self
        self.sqr_par = at

    def key(self, comp):
        return self.keys.get(comp)

    def on_event(self, comp, objection, kind, src, count):
        if objection is not self.obj:
            return
        ctx = Cur.ctx
        k = self.key(comp)
        self.ev[k] = self.ev.get(k, 0) + (count if kind == "raised"
                                          else -count)
        ctx.check(count > 0, "cb_count", "%s callback with count %r"
                  % (kind, count))
        # the callback sees the total already updated
        ctx.eq(int(objection.get_objection_total(comp)), self.ev[k],
               "cb_total", "%s callback of %s" % (kind, k))
        self.wake(k, kind)

    async def on_all_dropped(self, comp, objection, src, count):
        if objection is not self.obj:
            return
        ctx = Cur.ctx
        k = self.key(comp)
        ctx.eq(int(objection.get_objection_total(comp)), 0, "all_dropped",
               "all_dropped of %s while its total is not 0" % (k,))
        self.m.advance(self.unit(ctx.now))
        z = self.m.zero_at.get(k)
        ctx.check(z is not None and self.unit(ctx.now) ==
                  z + self.m.drain[k], "drain_time",
                  lambda: "all_dropped of %s at %s, total 0 since %s, drain "
                  "%s" % (k, self.unit(ctx.now), z, self.m.drain[k]))
        self.adrop.append((k, self.unit(ctx.now)))
        ctx.cov("all_dropped")
        if self.m.cbt[k]:
            await ctx.delay(self.m.cbt[k])

    def unit(self, now):
        return now // 1000

    # -- wait_for --------------------------------------------------------
    def wake(self, k, kind):
        for w in self.wstate:
            if w["k"] == k and w["kind"] == kind and w["on"] and \
                    w["hit"] is None:
                w["hit"] = Cur.ctx.now

    async def waiter(self, w, comp):
        ctx = Cur.ctx
        ev = {"raised": UVM_RAISED, "dropped": UVM_DROPPED,
              "all": UVM_ALL_DROPPED}[w["kind"]]
        while True:
            w["hit"] = None
            w["on"] = True
            t0 = ctx.now
            if comp is None:
                await self.obj.wait_for(ev)
            else:
                await self.obj.wait_for(ev, comp)
            w["on"] = False
            w["n"] += 1
            ctx.check(w["n"] < 500, "wait_spin",
                      "wait_for(%s) returns without end" % w["kind"])
            if w["kind"] != "all" and w["k"] in self.node_keys:
                ctx.check(w["hit"] is not None, "wait_early",
                          lambda: "wait_for(%s, %s) entered at %d returned at "
                          "%d with no such event" % (w["kind"], w["k"], t0,
                                                     ctx.now))
            if w["kind"] == "all":
                ctx.cov("wait_all")

    # -- main ------------------------------------------------------------
    async def actor(self, i, a):
        ctx = Cur.ctx
        obj = self.objs[i]
        k = self.okey[i]
        held = held2 = 0
        epoch = self.epoch
        scale = 10 if self.drains else 1
        for d, op, n in a["ops"] + [[a["end"], "dropall", 0]]:
            await ctx.delay(d * scale if d > 0 else d)
            if epoch != self.epoch:
                epoch = self.epoch          # somebody cleared the objection
                held = 0
            if op == "dropall":
                if held2:
                    self.m2.src[k] -= held2
                    self.m2.drop(k, held2, self.unit(ctx.now))
                    self.obj2.drop_objection(obj, "d", held2)
                n = held
                if not n:
                    continue
            if op == "raise2":
                held2 += n
                self.m2.src[k] += n
                self.m2.raise_(k, n, self.unit(ctx.now))
                self.obj2.raise_objection(obj, "d", n)
                continue
            if op == "drop2":
                if held2 >= n:
                    held2 -= n
                    self.m2.src[k] -= n
                    self.m2.drop(k, n, self.unit(ctx.now))
                    self.obj2.drop_objection(obj, "d", n)
                    ctx.cov("second_objection")
                continue
            if op == "raise":
                held += n
                self.m_raise(k, n)
                m = len(ctx.messages)
                if obj is None:
                    self.obj.raise_objection(None, "d", n)
                else:
                    self.obj.raise_objection(obj, "d", n)
                self.traced(ctx, k, "raised", n, m)
                ctx.rec("raise", k, n)
            else:
                n = min(n, held)
                if n == 0:
                    continue
                held -= n
                self.m_drop(k, n)
                m = len(ctx.messages)
                if obj is None:
                    self.obj.drop_objection(None, "d", n)
                else:
                    self.obj.drop_objection(obj, "d", n)
                self.traced(ctx, k, "dropped", n, m)
                ctx.rec("drop", k, n)
        self.fin.add(i)

    def traced(self, ctx, k, what, n, m):
        pass

    def shown(self, ctx):
        pass

    async def clearer(self, ctx, t):
        await ctx.delay(t * (10 if self.drains else 1) + 3)
        self.epoch += 1
        self.cleared = True
        m = self.m
        self.obj.clear(self.comps[-1])
        ctx.fault("clear")
        for k in m.tot:
            m.tot[k] = m.src[k] = 0
        m.pend.clear()
        self.ev.clear()
        for k, c in self.kobj.items():
            ctx.eq(int(self.obj.get_objection_total(c)), 0, "clear",
                   "total of %s right after clear" % (k,))
        for w in self.wstate:
            if w["k"] == "top" and w["kind"] == "all":
                w["hit"] = ctx.now

    def m_raise(self, k, n):
        now = self.unit(Cur.ctx.now)
        self.m.src[k] += n
        self.m.raise_(k, n, now)

    def m_drop(self, k, n):
        now = self.unit(Cur.ctx.now)
        self.m.src[k] -= n
        self.m.drop(k, n, now)

    def settled(self, ctx):
        self.m.advance(self.unit(ctx.now))
        m = self.m
        real = dict((k, int(self.obj.get_objection_total(c)))
                    for k, c in self.kobj.items())
        for k, c in self.kobj.items():
            what = "t=%d total of %s (all %r, model %r pending %r)" % (
                self.unit(ctx.now), k, real, m.tot, m.pend)
            kids = [x for x in self.kobj if m.parent[x] == k]
            drain = [x for x in kids if x in m.pend]
            base = m.src[k] + sum(real[x] for x in kids if x not in m.pend)
            ctx.eq(real[k] > 0, m.tot[k] > 0, "total", what)
            if not drain:
                ctx.eq(real[k], base, "total", what)
            else:
                # a draining child still counts, with what it dropped last
                ctx.check(real[k] >= base + len(drain), "total", what)
            ctx.eq(int(self.obj.get_objection_count(c)), m.src[k], "count",
                   "t=%d own count of %s" % (self.unit(ctx.now), k))
        self.m2.advance(self.unit(ctx.now))
        for k, c in self.kobj.items():
            ctx.eq([int(self.obj2.get_objection_count(c)),
                    int(self.obj2.get_objection_total(c))],
                   [self.m2.src[k], self.m2.tot[k]], "other_objection",
                   "t=%d own count and total of %s in the other objection"
                   % (self.unit(ctx.now), k))
        ctx.eq(int(self.obj.get_objection_total()), real["top"],
               "total_top", "default object")
        self.shown(ctx)
        if self.drains:
            # every drain that ran to its end called all_dropped exactly once
            for k in self.node_keys:
                want = [t - m.cbt[k] for c, t in m.fired if c == k]
                got = [t for c, t in self.adrop if c == k]
                if m.drain[k]:
                    ctx.check(all(got.count(t) >= 1 for t in want),
                              "all_dropped_missing", lambda: "%s: expected "
                              "at %r, got %r" % (k, want, got))
        ctx.state(tuple(sorted((str(a), b) for a, b in m.tot.items())),
                  len(m.pend))

    async def main(self, top, phase):
        ctx = Cur.ctx
        p = self.plan
        self.obj = UVMObjection("my_objection")
        self.obj2 = UVMObjection("my_objection")    # of the same name
        self.before(ctx)
        self.fin = set()
        self.epoch = 0
        self.cleared = False
        self.ev = {}
        self.adrop = []
        parent = {"top": None, -1: "top"}
        for i, par in enumerate(p["parents"]):
            parent[i] = par if par < i else -1
        parent["sqr"] = self.sqr_par
        self.kobj = dict((i, c) for i, c in self.comps.items())
        self.kobj["sqr"] = self.sqr
        self.kobj["top"] = root()
        self.objs = []
        self.okey = []
        self.seqs = 0
        for i, a in enumerate(p["acts"]):
            w = a["who"]
            if w == "seq":
                s = UVMSequence("seq%d" % i)
                s.set_sequencer(self.sqr)
                self.objs.append(s)
                self.okey.append("seq%d" % i)
                parent["seq%d" % i] = "sqr"
                self.kobj["seq%d" % i] = s
            elif w == "obj":
                o = UVMObject("obj%d" % i)
                self.objs.append(o)
                self.okey.append("obj%d" % i)
                parent["obj%d" % i] = "top"
                self.kobj["obj%d" % i] = o
            elif w == "top":
                self.objs.append(None)
                self.okey.append("top")
            else:
                w = w if w in self.comps else -1
                self.objs.append(self.comps[w])
                self.okey.append(w)
        self.keys = dict((c, k) for k, c in self.kobj.items())
        self.node_keys = [k for k, c in self.kobj.items()
                          if isinstance(c, (Node, Sqr))]
        drain = dict((k, 0) for k in parent)
        cbt = dict((k, 0) for k in parent)
        for k in parent:
            if str(k) in p["drain"]:
                drain[k] = p["drain"][str(k)]
                if k == "top":
                    self.obj.set_drain_time(drain=drain[k] * 1000)
                else:
                    self.obj.set_drain_time(self.kobj[k], drain[k] * 1000)
            if str(k) in p["cbt"] and k in self.node_keys:
                cbt[k] = p["cbt"][str(k)]
        self.m = ObjModel(parent, drain, cbt)
        zero = dict((k, 0) for k in parent)
        self.m2 = ObjModel(parent, zero, zero)
        self.wstate = []
        wt = []
        for kind, k in p["waits"]:
            if k not in self.kobj:
                continue
            w = {"kind": kind, "k": k, "on": False, "hit": None, "n": 0}
            self.wstate.append(w)
            wt.append(ctx.spawn(self.waiter(
                w, None if k == "top" else self.kobj[k])))
        await ctx.quiesce(1 if not self.drains else 10)
        ts = [ctx.spawn(self.actor(i, a)) for i, a in enumerate(p["acts"])]
        await ctx.half()
        ct = None
        if p["clear"] is not None:
            ct = ctx.spawn(self.clearer(ctx, p["clear"]))
        for _ in range(600):
            await ctx.quiesce(1)
            self.settled(ctx)
            if len(self.fin) == len(ts) and (ct is None or ct.done()):
                break
        else:
            ctx.fail("stuck", "actors did not finish")
        # progress: with nothing raised any more every count drains to zero
        for _ in range(25):
            await ctx.quiesce(1)
            self.settled(ctx)
        for k, c in self.kobj.items():
            ctx.eq(int(self.obj.get_objection_total(c)), 0, "not_drained",
                   "total of %s long after the last drop" % (k,))
        if p["over"]:
            # nobody holds anything: a drop is refused, loudly
            c = self.comps[-1]
            self.obj.raise_objection(self.comps[-1], "one", 1)
            ctx.fault("over_drop")
            try:
                self.obj.drop_objection(c, "two", 2)
                if not self.cleared:
                    ctx.fail("below_zero", "a drop below zero was accepted")
            except UVMFinishError:
                ctx.cov("below_zero_fatal")
            ctx.eq(int(self.obj.get_objection_total(c)), 1, "below_zero",
                   "total after a refused drop")
            self.obj.drop_objection(c, "one", 1)
        ctx.nontrivial = len(ts) > 1
        for t in wt:
            t.kill()
        self.closing(ctx)

    def before(self, ctx):
        pass

    def closing(self, ctx):
        pass

    def valid(self, plan):
        return bool(plan["acts"])


class ObjectionCounts(ObjectionTree):
    name = "objection_counts"


class ObjectionDrain(ObjectionTree):
    name = "objection_drain"
    drains = True


TRC = re.compile(r"Object (\S+) (raised|dropped|added|subtracted|all_dropped) "
                 r"(\d+) objection\(s\)(.*): count=(\d+)  total=(\d+)")


def alive():
    return sum(isinstance(o, UVMObjection) for o in gc.get_objects())


class ObjectionTrace(ObjectionTree):
    """The same bench while a user watches: tracing switched on and off, the
    table printed, copies taken."""
    name = "objection_trace"

    def gen(self, rng, tier):
        self.drains = rng.random() < 0.5
        p = super().gen(rng, tier)
        p["drains"] = self.drains
        p["watch"] = [rng.choice(["on", "off", "show", "show", "copy", "none"])
                      for _ in range(rng.randint(1, 12))]
        p["start"] = rng.random() < 0.5
        return p

    def valid(self, plan):
        return super().valid(plan) and bool(plan["watch"])

    def build(self, top):
        self.drains = self.plan["drains"]
        super().build(top)

    def before(self, ctx):
        self.tick = 0
        self.snaps = []
        self.on = False
        if self.plan["start"]:
            self.obj.trace_mode(1)
            self.on = True
        self.nobj = alive()

    def closing(self, ctx):
        self.obj.trace_mode(0)
        n = alive() - self.nobj - len(self.snaps)
        ctx.check(n <= 0, "left_behind",
                  lambda: "%d objections created by raising and dropping" % n)

    def traced(self, ctx, k, what, n, m):
        new = [x for x in map(str, ctx.messages[m:]) if "OBJTN_TRC" in x]
        if not self.on:
            ctx.eq(new, [], "trace_off", "messages with tracing off")
            return
        rows = [TRC.search(x) for x in new]
        ctx.check(all(rows), "trace_text", lambda: "messages %r" % new)
        names = dict((self.full(c), c) for c in self.kobj.values())
        me = self.full(self.kobj[k])
        ctx.check(rows and rows[0].group(1, 2, 3) == (me, what, str(n)),
                  "trace_first", lambda: "%s %s %d: %r" % (me, what, n, new))
        ctx.check("(d)" in rows[0].group(4), "trace_text", "description")
        last = dict((r.group(1), r) for r in rows)
        for nm, r in last.items():
            ctx.check(nm in names, "trace_object", lambda: "unknown %s" % nm)
            c = names[nm]
            ctx.eq([int(r.group(5)), int(r.group(6))],
                   [int(self.obj.get_objection_count(c)),
                    int(self.obj.get_objection_total(c))], "trace_counts",
                   "last message about %s" % nm)
        for r in rows[1:]:
            ctx.check(r.group(2) in ("added", "subtracted"), "trace_text",
                      lambda: r.group(0))
        if what == "raised":
            # everybody whose total this raise changed is named, bottom up
            ctx.cov("traced_raise")
        ctx.cov("traced")

    def full(self, c):
        return c.get_full_name() or "uvm_top"

    def table(self, ctx, text, base):
        tot = int(self.obj.get_objection_total(base))
        lines = text.splitlines()
        ctx.eq(lines[0], "The total objection count is %d" % tot, "table")
        rows = []
        for l in lines:
            r = re.match(r"(\d+) +(\d+) +'(.*)'$", l)
            if r:
                rows.append((int(r.group(1)), int(r.group(2)), r.group(3)))
        pre = base.get_full_name()
        want = []
        for c in sorted(self.kobj.values(), key=lambda c: c.get_full_name()):
            t = int(self.obj.get_objection_total(c))
            if t and tot and c.get_full_name().startswith(pre):
                want.append((int(self.obj.get_objection_count(c)), t,
                             self.full(c).split(".")[-1]))
        ctx.eq(rows, want, "table", "rows for %s" % self.full(base))
        ctx.cov("table_%d" % min(len(rows), 4))

    def shown(self, ctx):
        w = self.plan["watch"][self.tick % len(self.plan["watch"])]
        self.tick += 1
        for o, t in self.snaps:
            ctx.eq(dict((k, (int(o.get_objection_count(c)),
                             int(o.get_objection_total(c))))
                        for k, c in self.kobj.items()), t, "copy",
                   "counts of an earlier copy")
        if w in ("on", "off"):
            was = self.obj.trace_mode(int(w == "on"))
            ctx.eq(bool(was), self.on, "trace_mode", "previous mode")
            self.on = w == "on"
            ctx.eq(bool(self.obj.trace_mode()), self.on, "trace_mode")
        elif w == "show":
            self.table(ctx, self.obj.convert2string(), root())
            m = len(ctx.messages)
            keys = list(self.kobj)
            c = self.kobj[keys[self.tick % len(keys)]]
            self.obj.display_objections(c)
            txt = str(ctx.messages[m])
            ctx.eq(len(ctx.messages), m + 1, "table", "messages printed")
            self.table(ctx, txt[txt.index("The total"):], c)
        elif w == "copy" and len(self.snaps) < 3:
            o = UVMObjection("copy")
            o.copy(self.obj)
            self.snaps.append((o, dict(
                (k, (int(self.obj.get_objection_count(c)),
                     int(self.obj.get_objection_total(c))))
                for k, c in self.kobj.items())))
            ctx.cov("copy")
