"""Transaction recording: the text database against a reference model."""
import os
import re
from simkit.uvmkit import *
from simkit.uvmkit import Cur, Delays, UvmScenario, root, sev_count
from uvm.base.uvm_recorder import UVMRecorder
from uvm.base.uvm_links import UVMParentChildLink, UVMRelatedLink
from uvm.macros.uvm_object_defines import (
    uvm_field_int, uvm_field_object, uvm_field_string,
    uvm_object_utils_begin, uvm_object_utils_end)
from uvm.seq.uvm_sequence_item import UVMSequenceItem

TEXTS = ["lab", "a b", "100%", "%d %s", "{x}", "it's \"q\"", "p=1 q=2}",
         "", "", "x" * 40]
STREAMS = ["main", "", "s1", "s2", "s 3"]


class Node(UVMObject):
    def __init__(self, name="node", k=0):
        super().__init__(name)
        self.k = k
        self.nxt = None


class NodeN(UVMObject):
    def __init__(self, name="node", k=0):
        super().__init__(name)
        self.k = k


uvm_object_utils_begin(Node)
uvm_field_int("k")
uvm_field_object("nxt")
uvm_object_utils_end(Node)
uvm_object_utils_begin(NodeN)
uvm_field_int("k")
uvm_object_utils_end(NodeN)


def mk_tr(base, nm):
    class T(base):
        def __init__(self, name="t", k=0, s="", sub=None):
            super().__init__(name)
            self.k, self.s, self.sub = k, s, sub
            self.mtr = None

        def do_accept_tr(self):
            Cur.scn.hook("tr.accept", self.mtr)

        def do_begin_tr(self):
            Cur.scn.hook("tr.begin", self.mtr)

        def do_end_tr(self):
            Cur.scn.hook("tr.end", self.mtr)
    T.__name__ = T.__qualname__ = nm
    uvm_object_utils_begin(T)
    uvm_field_int("k")
    uvm_field_string("s")
    uvm_field_object("sub")
    uvm_object_utils_end(T)
    return T


TrA = mk_tr(UVMTransaction, "TrA")
TrB = mk_tr(UVMSequenceItem, "TrB")


class Comp(UVMComponent):
    idx = 0

    def do_accept_tr(self, tr):
        Cur.scn.hook("c.accept", self.idx, tr.mtr)

    def do_begin_tr(self, tr, stream_name, tr_handle):
        Cur.scn.hook("c.begin", self.idx, tr.mtr, stream_name, tr_handle)

    def do_end_tr(self, tr, tr_handle):
        Cur.scn.hook("c.end", self.idx, tr.mtr, tr_handle)


class MRec(object):
    """Model of one record."""

    def __init__(self, n, key, opened):
        self.n, self.key, self.opened = n, key, opened
        self.closed = None
        self.state = "open"
        self.handle = None
        self.obj = None


class MTr(object):
    def __init__(self):
        self.begin = self.end = self.accept = -1
        self.rec = None         # own record
        self.stream = None      # recording enabled: (stream key, object)
        self.active = {}        # component -> record
        self.last = None        # record whose handle was last returned
        self.trig = {"begin": [], "end": [], "accept": []}


LINE = [
    ("stream", re.compile(r"^CREATE_STREAM @(\S+) \[NAME:(.*) T:(.*) "
                          r"SCOPE:(.*) STREAM:(\d+)\]$", re.S)),
    ("open", re.compile(r"^OPEN_RECORDER @(\S+) \{TXH:(\d+) STREAM:(\d+) "
                        r"NAME:(.*) TIME:(\S+) TYPE=\"(.*)\"\}$", re.S)),
    ("attr", re.compile(r"^SET_ATTR @(\S+) \{TXH:(\d+) NAME:(\S*) VALUE:(.*)"
                        r"   RADIX:(\S+) BITS=(\d+)\}$", re.S)),
    ("close", re.compile(r"^CLOSE_RECORDER @(\S+) \{TXH:(\d+) TIME=(\S+)\}$")),
    ("free", re.compile(r"^FREE_RECORDER @(\S+) \{TXH:(\d+)\}$")),
    ("link", re.compile(r"^LINK @(\S+) \{TXH1:(\d+) TXH2:(\d+) "
                        r"RELATION=(.*)\}$")),
]
RADIX = {"h": 16, "d": 10, "b": 2, "o": 8, "u": 10}


def number(v, radix):
    """The value of an integral attribute."""
    try:
        v = v.split("'")[-1]
        return int(v.lstrip("hdbo") if not v[:1].isdigit() and
                   radix in "hdbo" and v[:1] == radix else v,
                   RADIX.get(radix, 10))
    except ValueError:
        return None


def parse(text):
    out = []
    for ln in text.split("\n"):
        ln = ln.strip(" ") if ln.endswith(("]", "}")) else ln
        if not ln:
            continue
        for k, rx in LINE:
            m = rx.match(ln.lstrip())
            if m:
                out.append([k] + list(m.groups()))
                break
        else:
            out.append(["?", ln])
    return out


class Recording(UvmScenario):
    """Components, transactions and bare records driven by many clients."""
    name = "recording"
    max_steps = 60000

    # -- plan ------------------------------------------------------------
    def gen(self, rng, tier):
        nc = rng.randint(1, 3)
        nt = rng.randint(1, 5)
        plan = {"comps": [rng.choice(["off", "attr", "attr", "cfg"])
                          for _ in range(nc)],
                "trs": [[rng.choice(["A", "B"]), rng.getrandbits(
                    rng.choice([1, 8, 31])), rng.choice(TEXTS),
                    rng.choice(["none", "node", "leaf", "cycle", "deep"])]
                    for _ in range(nt)],
                "clients": [], "waits": [],
                "nofile": rng.random() < 0.08,
                "ext": rng.randrange(3)}

        def t():
            return rng.choice([0, 0, 0, 0, 3, 100, 2.5])

        def op():
            k = rng.choice(["beg"] * 5 + ["end"] * 5 + ["acc", "acc", "child",
                           "child", "evt", "err", "tbeg", "tend", "tacc",
                           "ena", "ropen", "rattr", "rattr", "rclose",
                           "rfree", "close_db", "link", "hget"])
            ti, ci = rng.randrange(nt), rng.randrange(nc)
            if k in ("beg", "child"):
                a = [ti, ci, rng.choice(STREAMS), rng.choice(TEXTS),
                     rng.choice(TEXTS), t(), rng.choice(
                         [-1, rng.randrange(nt)])]
            elif k in ("end",):
                a = [ti, ci, t(), rng.choice([1, 1, 0])]
            elif k in ("evt", "err"):
                a = [ci, rng.choice(STREAMS), rng.choice([-1, ti]),
                     rng.choice(TEXTS), rng.choice(TEXTS), t(),
                     rng.choice([0, 0, 1])]
            elif k == "tbeg":
                a = [ti, t(), rng.choice([-1, rng.randrange(nt)])]
            elif k == "tend":
                a = [ti, t(), rng.choice([1, 1, 0])]
            elif k == "acc":
                a = [ti, ci, t()]
            elif k == "tacc":
                a = [ti, t()]
            elif k == "ena":
                a = [ti, ci, rng.choice(STREAMS[2:])]
            elif k == "ropen":
                a = [ci, rng.choice(STREAMS[2:]), t()]
            elif k == "rattr":
                a = [rng.randrange(4), rng.choice(
                    ["int", "field", "str", "obj", "null"]), rng.choice(
                        ["UVM_HEX", "UVM_DEC", "UVM_BIN", "UVM_NORADIX"]),
                    rng.getrandbits(rng.choice([1, 4, 20])),
                    rng.choice([0, 0, 7])]
            elif k == "link":
                a = [rng.randrange(4), rng.randrange(4), rng.randrange(2)]
            elif k in ("rclose", "rfree"):
                a = [rng.randrange(4), t()]
            else:
                a = [rng.randrange(4)]
            return [Delays.gen(rng), k] + a
        for _ in range(rng.randint(1, 4)):
            plan["clients"].append([op() for _ in range(rng.randint(
                2, 14 if tier == "quick" else 40))])
        for _ in range(rng.randint(0, 4)):
            plan["waits"].append([rng.randint(0, 8), rng.choice(
                ["begin", "end", "accept"]), rng.randrange(nt)])
        return plan

    def valid(self, plan):
        nt, nc = len(plan["trs"]), len(plan["comps"])
        if not nt or not nc:
            return False
        T = {"beg": 0, "child": 0, "end": 0, "tbeg": 0, "tend": 0, "acc": 0,
             "tacc": 0, "ena": 0, "evt": 2, "err": 2}
        C = {"beg": 1, "child": 1, "end": 1, "acc": 1, "ena": 1, "evt": 0,
             "err": 0, "ropen": 0}
        for c in plan["clients"]:
            for o in c:
                k, a = o[1], o[2:]
                if k in T and a[T[k]] >= nt or k in C and a[C[k]] >= nc:
                    return False
                if k in ("beg", "child") and a[6] >= nt or \
                        k == "tbeg" and a[2] >= nt:
                    return False
        return all(w[2] < nt for w in plan["waits"])

    # -- bench -----------------------------------------------------------
    def build(self, test):
        self.comps = []
        self.hooks = []
        for i, d in enumerate(self.plan["comps"]):
            if d == "cfg":
                UVMConfigDb.set(test, "c%d" % i, "recording_detail",
                                UVM_FULL)
            c = Comp("c%d" % i, test)
            c.idx = i
            if d == "attr":
                c.recording_detail = UVM_LOW
            self.comps.append(c)
        self.db = UVMCoreService.get().get_default_tr_database()
        self.nofile = self.plan["nofile"]
        self.path = os.path.join(Cur.ctx.scratch, "no", "rec.log") \
            if self.nofile else os.path.join(Cur.ctx.scratch, "rec.log")
        if self.plan["ext"]:
            self.db.set_file_name(self.path)
        else:
            self.path = os.path.join(Cur.ctx.scratch, "tr_db.log")
            if self.nofile:
                os.mkdir(self.path)
        self.trs, self.mtrs = [], []
        for i, (b, k, s, sub) in enumerate(self.plan["trs"]):
            x = (TrA if b == "A" else TrB)("t%d" % i, k, s, self.sub(sub, k))
            x.mtr = i
            self.trs.append(x)
            self.mtrs.append(MTr())
        self.lines = []         # expected database
        self.streams = {}       # key -> stream number
        self.recs = []
        self.raw = []           # records opened by hand
        self.handles = {}       # handle -> record

    def sub(self, kind, k):
        if kind == "none":
            return None
        if kind == "leaf":
            return NodeN("n", k ^ 1)
        n = Node("n", k ^ 1)
        if kind == "cycle":
            n.nxt = n
        elif kind == "deep":
            n.nxt = Node("m", k ^ 3)
        return n

    def hook(self, *a):
        self.hooks.append(a)

    # -- model of the database -------------------------------------------
    def now(self):
        return Cur.ctx.now / 1000.0

    def m_stream(self, ci, name, typ):
        key = (ci, name, typ)
        if key not in self.streams:
            self.streams[key] = len(self.streams)
            self.lines.append(("stream", self.now(), name, typ,
                               self.comps[ci].get_full_name(),
                               self.streams[key]))
        return self.streams[key]

    def m_named(self, ci, name):
        if name in ("", "main"):
            return self.m_stream(ci, "main", "TVM")
        return self.m_stream(ci, name, "")

    def m_open(self, sid, name, t, typ):
        r = MRec(len(self.recs), sid, t or self.now())
        self.recs.append(r)
        self.lines.append(("open", self.now(), r.n, sid, name, r.opened, typ))
        return r

    def m_str(self, r, name, v):
        self.lines.append(("attr", self.now(), r.n, name, v, "str",
                           8 + len(v)))

    def m_int(self, r, name, v, bits=32):
        self.lines.append(("attr", self.now(), r.n, name, v, "int", bits))

    def m_fields(self, r, x, pre="", up=()):
        self.m_int(r, pre + "k", x.k)
        if hasattr(x, "s"):
            self.m_str(r, pre + "s", x.s)
        for f in ("sub", "nxt"):
            if hasattr(x, f):
                self.m_obj(r, pre + f, getattr(x, f), up)

    def m_obj(self, r, name, o, up=()):
        self.m_int(r, name, o.get_inst_id() if o is not None else 0)
        if o is not None and o not in up:
            self.m_fields(r, o, name + ".", up + (o,))

    def m_close(self, r, t):
        if r.state != "open":
            return
        r.closed = t or self.now()
        r.state = "closed"
        self.lines.append(("close", self.now(), r.n, r.closed))

    def m_free(self, r, t=0):
        if r.state == "freed":
            return
        self.m_close(r, t)
        r.state = "freed"
        self.lines.append(("free", self.now(), r.n))

    def m_link(self, a, b, rel):
        self.lines.append(("link", self.now(), a.n, b.n, rel))

    def settle(self, r, h, what):
        """The record r was returned to the user as handle h."""
        ctx = Cur.ctx
        if r is None:
            ctx.eq(h, 0, "handle", what + ": handle without a record")
            return
        ctx.check(h, "handle", what + ": record has no handle")
        o = UVMRecorder.get_recorder_from_handle(h)
        if r.state == "freed":
            ctx.check(o is None, "handle",
                      what + ": handle of a freed record resolves")
            return
        if r.handle is None:
            ctx.check(h not in self.handles, "handle", lambda: "%s: handle "
                      "%d given twice" % (what, h))
            r.handle = h
            self.handles[h] = r
        ctx.eq(h, r.handle, "handle", what + ": handle of the record")
        ctx.check(o is not None, "handle", what + ": handle does not resolve")
        r.obj = o
        self.look(r, what)

    def look(self, r, what):
        ctx = Cur.ctx
        o = r.obj
        if o is None:
            return
        ctx.eq(bool(o.is_open()), r.state == "open", "state",
               what + ": record is open")
        ctx.eq(bool(o.is_closed()), r.state == "closed", "state",
               what + ": record is closed")
        ctx.eq(o.get_open_time(), r.opened, "time", what + ": open time")
        if r.state != "open":
            ctx.eq(o.get_close_time(), r.closed, "time",
                   what + ": close time")
        ctx.eq(o.get_handle(), 0 if r.state == "freed" else r.handle,
               "handle", what + ": handle of the record")
        x = UVMRecorder.get_recorder_from_handle(r.handle)
        ctx.check(x is (None if r.state == "freed" else o), "handle",
                  what + ": record of the handle")

    # -- model of a transaction ------------------------------------------
    def parent(self, pi, ti):
        """(handle to give, record it stands for)"""
        if pi < 0 or pi == ti:
            return 0, None
        r = self.mtrs[pi].last
        if r is None or r.handle is None:
            return 0, None
        return r.handle, r if r.state != "freed" else None

    def m_tend(self, i, t, free):
        m, x = self.mtrs[i], self.trs[i]
        m.end = t or self.now()
        self.exp.append(("tr.end", i))
        if m.rec is not None:
            self.m_fields(m.rec, x)
            self.m_close(m.rec, m.end)
            if free:
                self.m_free(m.rec)
            m.rec = None
        m.trig["end"].append(self.stamp())

    def m_tbeg(self, i, t, par):
        m, x = self.mtrs[i], self.trs[i]
        t = t or self.now()
        if m.rec is not None:
            self.m_tend(i, t, 1)
        m.end, m.begin = -1, t
        if m.stream is not None:
            m.rec = self.m_open(m.stream, x.get_type_name(), t,
                                "Begin_End, Link" if par else
                                "Begin_No_Parent, Link")
            if par:
                self.m_link(par, m.rec, "child")
        self.exp.append(("tr.begin", i))
        m.trig["begin"].append(self.stamp())
        return m.rec

    def stamp(self):
        self.order += 1
        return self.order, Cur.ctx.now

    # -- clients ---------------------------------------------------------
    async def main(self, test, phase):
        ctx = Cur.ctx
        root().set_report_verbosity_level(UVM_LOW)
        self.warn = sev_count(UVM_WARNING) + sev_count(UVM_ERROR)
        self.order = 0
        self.exp = []
        self.pending = []
        ws = [ctx.spawn(self.waiter(*w)) for w in self.plan["waits"]]
        ts = [ctx.spawn(self.client(c)) for c in self.plan["clients"]]
        for t in ts:
            await t
        await ctx.delay(2)
        await ctx.half()
        for w in self.pending:
            if w["done"] is None:
                ctx.check(not [s for s in self.mtrs[w["t"]].trig[w["k"]]
                               if s[0] > w["at"]], "missed", lambda:
                          "waiter for the %s of transaction %d is stuck"
                          % (w["k"], w["t"]))
        for w in ws:
            if not w.done():
                w.kill()
        for i, t in enumerate(self.trs):
            self.check_tr(i)
        for r in self.recs:
            if r.handle:
                self.look(r, "end")
        ctx.eq(sev_count(UVM_WARNING) + sev_count(UVM_ERROR), self.warn,
               "messages", "warnings and errors about recording")
        self.db.close_db()
        self.check_file()

    def check_tr(self, i):
        ctx = Cur.ctx
        m, x = self.mtrs[i], self.trs[i]
        what = " of transaction %d" % i
        ctx.eq(x.get_begin_time(), m.begin, "time", "begin time" + what)
        ctx.eq(x.get_end_time(), m.end, "time", "end time" + what)
        ctx.eq(x.get_accept_time(), m.accept, "time", "accept time" + what)
        ctx.eq(bool(x.is_active()), m.end == -1, "active", "activity" + what)
        ctx.eq(x.get_tr_handle(), m.rec.obj.get_handle()
               if m.rec and m.rec.obj else x.get_tr_handle() if m.rec else 0,
               "handle", "handle" + what)

    async def waiter(self, d, k, i):
        ctx = Cur.ctx
        await ctx.delay(d)
        w = {"t": i, "k": k, "done": None, "at": self.order}
        self.pending.append(w)
        await self.trs[i].get_event_pool().get(k).wait_trigger()
        w["done"] = ctx.now
        want = [s for s in self.mtrs[i].trig[k] if s[0] > w["at"]]
        ctx.check(want, "early", "waiter for the %s of transaction %d "
                  "resumed without one" % (k, i))
        ctx.eq(ctx.now, want[0][1], "late", "time at which a waiter for the "
               "%s of transaction %d resumed" % (k, i))
        ctx.rec("woken", i, k)

    async def client(self, ops):
        ctx = Cur.ctx
        for o in ops:
            await ctx.delay(o[0])
            ctx.rec(*o[1:])
            del self.hooks[:], self.exp[:]
            getattr(self, "do_" + o[1])(*o[2:])
            hooks = [tuple(h) for h in self.hooks]
            ctx.eq(hooks, self.exp, "hooks", "user hooks called by " + o[1])
            if o[1] in ("beg", "child", "end", "acc", "tbeg", "tend",
                        "tacc"):
                self.check_tr(o[2])
            ctx.state(len([r for r in self.recs if r.state == "open"]),
                      len(self.streams))

    def on(self, ci):
        return self.plan["comps"][ci] != "off"

    def comp_event(self, ci, name, data=None):
        ctx = Cur.ctx
        e = self.comps[ci].event_pool.get(name)
        ctx.eq(e.get_trigger_time(), self.now(), "event",
               "trigger time of %s" % name)
        if data is not None:
            ctx.check(e.get_trigger_data() is data, "event",
                      "data of the event %s" % name)

    def do_acc(self, ti, ci, t):
        m = self.mtrs[ti]
        self.exp += [("tr.accept", ti), ("c.accept", ci, ti)]
        m.accept = t or self.now()
        m.trig["accept"].append(self.stamp())
        self.comps[ci].accept_tr(self.trs[ti], t)
        self.comp_event(ci, "accept_tr")

    def do_tacc(self, ti, t):
        m = self.mtrs[ti]
        self.exp.append(("tr.accept", ti))
        m.accept = t or self.now()
        m.trig["accept"].append(self.stamp())
        self.trs[ti].accept_tr(t)

    def do_beg(self, ti, ci, stream, label, desc, t, pi, child=False):
        ctx = Cur.ctx
        m, x = self.mtrs[ti], self.trs[ti]
        if ci in m.active:
            return
        h, par = self.parent(pi, ti)
        own = self.m_tbeg(ti, t, par)
        rec = None
        if self.on(ci) and not self.nofile:
            sid = self.m_named(ci, stream)
            rec = self.m_open(sid, x.get_name(), t, "Begin_End, Link" if par
                              else "Begin_No_Parent, Link")
            if label:
                self.m_str(rec, "label", label)
            if desc:
                self.m_str(rec, "desc", desc)
            if par:
                self.m_link(par, rec, "child")
            if own:
                self.m_link(rec, own, "")
            m.active[ci] = rec
            m.last = rec
            ctx.nontrivial = True
            ctx.cov("child" if par else "parentless")
        c = self.comps[ci]
        if child:
            got = c.begin_child_tr(x, h, stream, label, desc, t)
        else:
            got = c.begin_tr(x, stream, label, desc, t, h)
        if self.on(ci):
            self.exp.append(("c.begin", ci, ti, stream, got))
        self.settle(rec, got, "begin of transaction %d" % ti)
        if own is not None:
            self.settle(own, x.get_tr_handle(), "own record of transaction")
            if rec is None:
                m.last = own
        self.comp_event(ci, "begin_tr", x)

    def do_child(self, *a):
        self.do_beg(*a, child=True)

    def do_end(self, ti, ci, t, free):
        m, x = self.mtrs[ti], self.trs[ti]
        self.m_tend(ti, t, free)
        rec = m.active.pop(ci, None)
        if self.on(ci):
            self.exp.append(("c.end", ci, ti, rec.handle if rec else 0))
        if rec:
            self.m_fields(rec, x)
            self.m_close(rec, t)
            if free:
                self.m_free(rec)
        self.comps[ci].end_tr(x, t, free)
        if rec:
            self.look(rec, "end of transaction %d" % ti)
        self.comp_event(ci, "end_tr")

    def do_tbeg(self, ti, t, pi):
        m, x = self.mtrs[ti], self.trs[ti]
        h, par = self.parent(pi, ti)
        own = self.m_tbeg(ti, t, par)
        got = x.begin_child_tr(t, h) if h else x.begin_tr(t)
        self.settle(own, got, "begin of transaction %d" % ti)
        if own:
            m.last = own

    def do_tend(self, ti, t, free):
        self.m_tend(ti, t, free)
        self.trs[ti].end_tr(t, free)

    def do_evt(self, ci, stream, ti, label, desc, t, keep, err=False):
        rec = None
        if not self.nofile:
            sid = self.m_named(ci, stream)
            rec = self.m_open(sid, label, t, "Event, Link" if keep
                              else "Event")
            if label:
                self.m_str(rec, "label", label)
            if desc:
                self.m_str(rec, "desc", desc)
            if ti >= 0:
                self.m_fields(rec, self.trs[ti])
            self.m_close(rec, t)
            if not keep:
                self.m_free(rec)
        c = self.comps[ci]
        got = (c.record_error_tr if err else c.record_event_tr)(
            stream, self.trs[ti] if ti >= 0 else None, label, desc, t, keep)
        self.settle(rec if keep else None, got, "record of an event")
        Cur.ctx.cov("event")

    def do_err(self, *a):
        self.do_evt(*a, err=True)

    def stream(self, ci, name):
        s = self.comps[ci].get_tr_stream(name)
        if self.nofile:
            Cur.ctx.check(s is None, "nofile", "a stream without a file")
            return None, None
        return s, self.m_named(ci, name)

    def do_ena(self, ti, ci, stream):
        m, x = self.mtrs[ti], self.trs[ti]
        if m.rec is not None:
            return
        s, sid = self.stream(ci, stream)
        if s is None:
            return
        x.enable_recording(s)
        m.stream = sid
        Cur.ctx.eq(bool(x.is_recording_enabled()), True, "enabled",
                   "recording enabled")

    def do_ropen(self, ci, stream, t):
        s, sid = self.stream(ci, stream)
        if s is None:
            return
        r = self.m_open(sid, "raw", t, "Raw")
        o = s.open_recorder("raw", t, "Raw")
        Cur.ctx.check(o is not None, "open", "recorder did not open")
        self.settle(r, o.get_handle(), "opened record")
        self.raw.append(r)
        Cur.ctx.cov("raw")

    def pick(self, i):
        return self.raw[-1 - i % len(self.raw)] if self.raw else None

    def do_rattr(self, i, kind, radix, v, size):
        r = self.pick(i)
        if r is None or r.state == "freed" or r.obj is None:
            return
        o, rx = r.obj, globals()[radix]
        bits = max(v.bit_length(), 1) + size
        if kind in ("int", "field"):
            self.m_int(r, kind, v, bits)
            (o.record_field_int if kind == "int" else o.record_field)(
                kind, v, bits, rx)
        elif kind == "str":
            s = TEXTS[v % len(TEXTS)]
            self.m_str(r, "str", s)
            o.record_string("str", s)
        elif kind == "obj":
            x = self.trs[v % len(self.trs)]
            self.m_obj(r, "obj", x)
            o.record_object("obj", x)
        else:
            self.m_obj(r, "null", None)
            o.record_object("null", None)

    def do_rclose(self, i, t):
        r = self.pick(i)
        if r is None or r.obj is None:
            return
        self.m_close(r, t)
        r.obj.close(t)
        self.look(r, "close")

    def do_rfree(self, i, t):
        r = self.pick(i)
        if r is None or r.obj is None:
            return
        self.m_free(r, t)
        r.obj.free(t)
        self.look(r, "free")

    def do_link(self, i, j, kind):
        a, b = self.pick(i), self.pick(j)
        if a is None or b is None or "freed" in (a.state, b.state) or \
                not self.db.is_open():
            return
        self.m_link(a, b, "" if kind else "child")
        L = UVMRelatedLink if kind else UVMParentChildLink
        self.db.establish_link(L.get_link(a.obj, b.obj))

    def do_hget(self, i):
        r = self.pick(i)
        if r is not None and r.handle:
            self.look(r, "look")

    def do_close_db(self, i):
        Cur.ctx.fault("close_db")
        self.db.close_db()
        Cur.ctx.eq(bool(self.db.is_open()), False, "open",
                   "closed database is open")

    # -- verdict ---------------------------------------------------------
    def check_file(self):
        ctx = Cur.ctx
        if self.nofile:
            ctx.fault("file_cannot_be_opened")
            ctx.eq(self.lines, [], "nofile", "expected records")
            return
        got = []
        if os.path.exists(self.path):
            with open(self.path) as f:
                got = parse(f.read())
        sid, rid = {}, {}

        def h(tab, n, v, new=False):
            if new:
                ctx.check(v not in tab.values(), "database",
                          "identifier %s used twice" % v)
                tab[n] = v
            ctx.check(tab.get(n) == v, "database", lambda: "identifier of "
                      "%d is %s, was %s" % (n, v, tab.get(n)))
        for n, (w, g) in enumerate(zip(self.lines, got)):
            what = lambda: "entry %d is %r, expected %r" % (n, g, w)
            ctx.check(g[0] == w[0] and float(g[1]) == w[1], "database", what)
            if w[0] == "stream":
                ctx.check(tuple(g[2:5]) == w[2:5], "database", what)
                h(sid, w[5], g[5], True)
                continue
            h(rid, w[2], g[2], w[0] == "open")
            if self.recs[w[2]].handle:
                ctx.check(int(g[2]) == self.recs[w[2]].handle, "database",
                          what)
            if w[0] == "open":
                h(sid, w[3], g[3])
                ctx.check(g[4] == w[4] and float(g[5]) == w[5] and
                          g[6] == w[6], "database", what)
            elif w[0] == "attr":
                ctx.check(g[3] == w[3] and int(g[6]) == w[6], "database",
                          what)
                if w[5] == "str":
                    ctx.check(g[4] == w[4], "database", what)
                else:
                    ctx.check(number(g[4], g[5]) == w[4], "database",
                              what)
            elif w[0] == "close":
                ctx.check(float(g[3]) == w[3], "database", what)
            elif w[0] == "link":
                h(rid, w[3], g[3])
                ctx.check(g[4] == w[4], "database", what)
        ctx.eq(len(got), len(self.lines), "database", "entries")


from uvm.seq.uvm_sequencer import UVMSequencer          # noqa: E402
from uvm.seq.uvm_sequence import UVMSequence            # noqa: E402
from uvm.comps.uvm_driver import UVMDriver              # noqa: E402


class SItem(UVMSequenceItem):
    def __init__(self, name="item"):
        super().__init__(name)
        self.uid = 0


uvm_object_utils_begin(SItem)
uvm_field_int("uid")
uvm_object_utils_end(SItem)


class SSeq(UVMSequence):
    async def body(self):
        await Cur.scn.body(self)


class SDrv(UVMDriver):
    idx = 0

    async def run_phase(self, phase):
        await Cur.scn.drive(self)


class SeqRecording(UvmScenario):
    """Sequences of any tree on recording and silent sequencers."""
    name = "seq_recording"
    max_steps = 80000

    def gen(self, rng, tier):
        nq = rng.choice([1, 1, 2])
        n = [0]

        def node(depth):
            n[0] += 1
            kids = [node(depth + 1) for _ in range(rng.choice(
                [0, 0, 1, 2]))] if depth < 3 and n[0] < 12 else []
            return {"q": rng.choice([0, nq - 1, -1] if depth else
                                    [0, nq - 1]),
                    "id": n[0], "d": Delays.gen(rng), "kids": kids,
                    "par": int(rng.random() < 0.4),
                    "items": rng.choice([0, 1, 1, 2]),
                    "rep": rng.choice([1, 1, 1, 2])}
        return {"sqr": [[rng.choice([1, 1, 1, 0]), rng.choice([1, 1, 0]),
                         rng.choice([0, 1, 3])] for _ in range(nq)],
                "roots": [node(0) for _ in range(rng.randint(1, 3))]}

    def valid(self, plan):
        nq = len(plan["sqr"])

        def ok(n):
            return n["q"] < nq and n["rep"] > 0 and all(map(ok, n["kids"]))
        return nq > 0 and all(ok(n) and n["q"] >= 0 for n in plan["roots"])

    def build(self, test):
        self.sqr, self.drv = [], []
        for i, (r, d, _) in enumerate(self.plan["sqr"]):
            s, v = UVMSequencer("q%d" % i, test), SDrv("d%d" % i, test)
            s.recording_detail = UVM_FULL if r else UVM_NONE
            v.recording_detail = UVM_FULL if d else UVM_NONE
            v.idx = i
            self.sqr.append(s)
            self.drv.append(v)
        self.db = UVMCoreService.get().get_default_tr_database()
        self.want, self.n_items = [], 0
        self.open = {}

    def connect(self, test):
        for s, v in zip(self.sqr, self.drv):
            v.seq_item_port.connect(s.seq_item_export)

    def expect(self, comp, stream, name, parent):
        ctx = Cur.ctx
        r = {"comp": comp.get_full_name(), "stream": stream, "name": name,
             "open": ctx.now / 1000.0, "close": None, "parent": parent,
             "handle": None, "n": len(self.want)}
        self.want.append(r)
        return r

    async def main(self, test, phase):
        ctx = Cur.ctx
        root().set_report_verbosity_level(UVM_LOW)
        self.warn = sev_count(UVM_WARNING) + sev_count(UVM_ERROR)
        ts = [ctx.spawn(self.start(n, None)) for n in self.plan["roots"]]
        for t in ts:
            await t
        await ctx.delay(20)
        ctx.eq(sev_count(UVM_WARNING) + sev_count(UVM_ERROR), self.warn,
               "messages", "warnings and errors about recording")
        self.db.close_db()
        self.check_file(ctx)

    async def start(self, n, parent):
        ctx = Cur.ctx
        s = SSeq("s%d" % n["id"])
        s.node = n
        s.q = n["q"] if n["q"] >= 0 else parent.q     # inherited
        sqr = self.sqr[s.q]
        for k in range(n["rep"]):
            await ctx.delay(n["d"])
            s.rec = None
            top = s.top = s.get_name() if parent is None else parent.top
            t0 = ctx.now
            if self.plan["sqr"][s.q][0]:
                s.rec = self.expect(sqr, top, s.get_name(),
                                    parent.rec if parent else None)
                ctx.nontrivial = True
                ctx.cov("child" if parent is not None and parent.rec
                        else "root")
            await s.start(sqr if n["q"] >= 0 else None, parent)
            ctx.eq(s.get_begin_time(), t0 / 1000.0, "time",
                   "begin time of a sequence")
            ctx.eq(s.get_end_time(), ctx.now / 1000.0, "time",
                   "end time of a sequence")
            if s.rec:
                s.rec["close"] = ctx.now / 1000.0
                h = s.rec["handle"]
                ctx.check(UVMRecorder.get_recorder_from_handle(h) is None,
                          "handle", "handle of a finished sequence resolves")

    async def body(self, s):
        ctx, n = Cur.ctx, s.node
        h = s.get_tr_handle()
        if s.rec is None:
            ctx.eq(h, 0, "handle", "handle of an unrecorded sequence")
        else:
            o = UVMRecorder.get_recorder_from_handle(h)
            ctx.check(h and o is not None and o.is_open(), "handle",
                      "running sequence has no open record")
            s.rec["handle"] = h
        ts = []
        for k in n["kids"]:
            if n["par"]:
                ts.append(ctx.spawn(self.start(k, s)))
            else:
                await self.start(k, s)
        for i in range(n["items"]):
            it = SItem("i")
            self.n_items += 1
            it.uid = self.n_items
            it.seq = s
            ev = ctx.spawn(self.ended(it))
            await s.start_item(it)
            await s.finish_item(it)
            ctx.eq(it.get_end_time(), ctx.now / 1000.0, "time",
                   "end time of an item")
            await ev
        for t in ts:
            await t

    async def ended(self, it):
        ctx = Cur.ctx
        await it.end_event.wait_on()
        ctx.rec("ended", it.uid)

    async def drive(self, d):
        ctx = Cur.ctx
        lag = self.plan["sqr"][d.idx][2]
        while True:
            x = []
            await d.seq_item_port.get_next_item(x)
            it = x[0]
            rec = None
            if self.plan["sqr"][d.idx][1]:
                rec = self.expect(d, "items", "i", it.seq.rec)
            h = d.begin_tr(it, "items")
            ctx.eq(bool(h), rec is not None, "handle", "handle of an item")
            ctx.eq(it.get_begin_time(), ctx.now / 1000.0, "time",
                   "begin time of an item")
            await ctx.delay(lag)
            d.end_tr(it)
            if rec:
                rec["handle"] = h
                rec["close"] = ctx.now / 1000.0
                rec["uid"] = it.uid
            d.seq_item_port.item_done()

    def check_file(self, ctx):
        path = os.path.join(ctx.scratch, "tr_db.log")
        got = []
        if os.path.exists(path):
            with open(path) as f:
                got = parse(f.read())
        streams, recs, order = {}, {}, []
        for g in got:
            ctx.check(g[0] != "?", "database", "line %r" % (g,))
            if g[0] == "stream":
                ctx.check(g[5] not in streams, "database", "stream number "
                          "used twice")
                streams[g[5]] = (g[4], g[2])
            elif g[0] == "open":
                ctx.check(g[2] not in recs, "database",
                          "record number used twice")
                recs[g[2]] = r = {"h": int(g[2]), "s": streams[g[3]],
                                  "name": g[4], "open": float(g[5]),
                                  "close": [], "free": 0, "parents": [],
                                  "at": float(g[1]), "attr": {}}
                order.append(r)
            elif g[0] == "link":
                if g[4] == "child":
                    recs[g[3]]["parents"].append(int(g[2]))
            else:
                r = recs[g[2]]
                ctx.check(not r["free"], "database", "%r after its record "
                          "was freed" % (g,))
                if g[0] == "attr":
                    r["attr"][g[3]] = (g[4], g[5])
                elif g[0] == "close":
                    r["close"].append(float(g[3]))
                else:
                    r["free"] += 1
        ctx.eq(len(order), len(self.want), "database", "records")
        by = {}
        for r in order:
            by[r["h"]] = r
        for w in self.want:
            what = "record of %s in %s" % (w["name"], w["comp"])
            r = by.get(w["handle"])
            ctx.check(r is not None, "database", what + " is missing")
            ctx.eq(r["s"], (w["comp"], w["stream"]), "database",
                   "stream of the " + what)
            ctx.eq((r["name"], r["open"], r["close"], r["free"]),
                   (w["name"], w["open"], [w["close"]], 1), "database", what)
            ctx.eq(r["parents"], [w["parent"]["handle"]] if w["parent"]
                   else [], "database", "parents of the " + what)
            if "uid" in w:
                ctx.eq(number(*r["attr"]["uid"]), w["uid"], "database",
                       "uid of the " + what)
