"""Settings given on the command line: every documented plusarg does what it
says, in command line order, at its time, and malformed ones disturb none."""
import re

from simkit.uvmkit import *
from simkit.uvmkit import Cur, SimTest, UvmScenario, root, rserver, sev_count
from uvm.base.uvm_cmdline_processor import UVMCmdlineProcessor
from uvm.base.uvm_config_db import UVMConfigDb
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.seq.uvm_sequence import UVMSequence
from scenarios.phase import COMMON, FUNC, RUNTIME
from scenarios.report import LINE, NAME, Model
from cocotb.triggers import Timer

PROBED = [UVM_INFO, UVM_WARNING, UVM_ERROR]
IDS = ["IDA", "IDB", "IDC"]
VERBS = {"NONE": UVM_NONE, "LOW": UVM_LOW, "MEDIUM": UVM_MEDIUM,
         "HIGH": UVM_HIGH, "FULL": UVM_FULL, "DEBUG": UVM_DEBUG}
LEVELS = [UVM_NONE, UVM_LOW, 150, UVM_MEDIUM, 250, UVM_HIGH, UVM_FULL,
          UVM_DEBUG]
ACTS = {"UVM_NO_ACTION": 0, "UVM_DISPLAY": UVM_DISPLAY,
        "UVM_COUNT": UVM_COUNT, "UVM_RM_RECORD": UVM_RM_RECORD}
SEVS = {v: k for k, v in NAME.items()}
TASKS = ["run"] + RUNTIME
BEFORE = ["build", "connect", "end_of_elaboration"]
FIELDS = {"int": ["f0", "f1"], "str": ["s0"]}
NUMS = ["5", "0", "17", "0x1f", "'h2A", "'xff", "'b101", "0b11", "'o17",
        "'d99", "-3", "123456"]


def number(t):
    for p, b in (("0x", 16), ("'h", 16), ("'x", 16), ("'b", 2), ("0b", 2),
                 ("'o", 8), ("'d", 10)):
        if t.startswith(p):
            return int(t[2:], b)
    return int(t)


def glob(p, name):
    return re.fullmatch("".join(".*" if c == "*" else "." if c == "?" else
                                re.escape(c) for c in p), name) is not None


class Hooks(object):
    idx = None

    def phase_started(self, phase):
        Cur.scn.phase_begins(self, phase)


def _func(name):
    def f(self, phase):
        if name == "build":
            UVMComponent.build_phase(self, phase)
        Cur.scn.func(self, phase, name)
    f.__name__ = name + "_phase"
    return f


def _task(name):
    async def f(self, phase):
        await Cur.scn.task(self, phase, name)
    f.__name__ = name + "_phase"
    return f


for _n in FUNC:
    setattr(Hooks, _n + "_phase", _func(_n))
for _n in TASKS:
    setattr(Hooks, _n + "_phase", _task(_n))


class CmdA(Hooks, UVMComponent):
    def __init__(self, name, parent):
        super().__init__(name, parent)
        Cur.scn.born(self, parent)


class CmdB(CmdA):
    pass


class CmdC(CmdA):
    pass


class CmdTest1(Hooks, UVMTest):
    def __init__(self, name="CmdTest1", parent=None):
        super().__init__(name, parent)
        Cur.scn.born(self, parent)


class CmdTest2(CmdTest1):
    pass


for _c in (CmdA, CmdB, CmdC, CmdTest1, CmdTest2):
    uvm_component_utils(_c)


class CmdSeq0(UVMSequence):
    async def body(self):
        Cur.scn.seq_runs(self)


class CmdSeq1(CmdSeq0):
    pass


for _c in (CmdSeq0, CmdSeq1):
    uvm_object_utils(_c)


class CmdLine(UvmScenario):
    name = "command_line"

    # -- plan -------------------------------------------------------------
    def gen(self, rng, tier):
        while True:
            plan = self.gen_any(rng, tier)
            if self.valid(plan):
                return plan

    def gen_any(self, rng, tier):
        big = tier != "quick"
        n = rng.randint(1, 5)
        plan = {"comps": [rng.randint(-1, i - 1) if i else -1
                          for i in range(n)],
                "sqrs": rng.randint(0, 2), "args": [], "code": [],
                "holds": {}, "probes": [], "pick": rng.randrange(1 << 30)}
        used = rng.sample(TASKS, rng.randint(1, 4))
        for p in TASKS:
            if p in used:
                plan["holds"][p] = rng.randint(1, 9)
        plan["focus"] = rng.random() < 0.5
        foc = [rng.choice(IDS), rng.choice(self.patterns(plan))]
        late = rng.random() < 0.5       # settings of early phases, or timed
        for _ in range(rng.randint(1, 12 if big else 8)):
            for a in [self.gen_arg(rng, plan, used, foc, late)]:
                plan["args"].insert(rng.randint(0, len(plan["args"])), a)
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            plan["code"].append([rng.choice(BEFORE + used),
                                 rng.randint(-1, n - 1), rng.choice(
                                     ["verb", "idv", "cfg", "timeout",
                                      "quit"]),
                                 rng.choice(IDS), rng.choice(LEVELS)])
        for _ in range(rng.randint(0, 6)):
            plan["probes"].append(rng.randint(0, 30000))
        return plan

    def path(self, plan, i):
        if i < 0:
            return "uvm_test_top"
        return self.path(plan, plan["comps"][i]) + ".c%d" % i

    def patterns(self, plan):
        out = ["*", "uvm_test_top", "uvm_test_top.*", "uvm_test*", "*c1",
               "*.c?", "nobody", "uvm_test_top.c0.?1"]
        for i in range(len(plan["comps"])):
            out += [self.path(plan, i), self.path(plan, i) + ".*",
                    self.path(plan, i) + "*"]
        return out

    def gen_arg(self, rng, plan, used, foc, late):
        n = len(plan["comps"])
        pat = foc[1] if plan["focus"] and rng.random() < 0.7 else \
            rng.choice(self.patterns(plan))
        id_ = foc[0] if plan["focus"] and rng.random() < 0.6 else \
            rng.choice(IDS)
        id_ = "_ALL_" if rng.random() < 0.4 else id_
        sev = rng.choice(list(SEVS)[:3] + ["_ALL_"])
        k = rng.choice(["verb"] * 6 + ["act", "act", "sev", "sev", "VERB",
                       "TIMEOUT", "QUIT", "int", "str", "inst", "type",
                       "seq", "TEST", "bad", "user"])
        if k == "verb":
            v = rng.choice(list(VERBS))
            v = v if rng.random() < 0.5 else "UVM_" + v
            if late and rng.random() < 0.6:
                ph = ["time", str(rng.choice([1, 2, 5, 10, 20]) * 1000)]
                if rng.random() < 0.2:
                    ph = ["time", "0"] if rng.random() < 0.5 else ["time"]
            else:
                ph = [rng.choice((["build", ""] if late else COMMON) + used +
                                 ["nosuch", used[0]])]
                if rng.random() < 0.5:
                    ph.append(str(rng.choice([0, 1, 2, 5]) * 1000))
            return ["verb", pat, id_, v] + ph
        if k == "act":
            return ["act", pat, id_, sev, "|".join(rng.sample(
                list(ACTS), rng.choice([1, 1, 2])))]
        if k == "sev":
            return ["sev", pat, id_, sev, rng.choice(list(SEVS)[:3])]
        if k == "VERB":
            v = rng.choice(list(VERBS) + ["UVM_HIGH", "150", "junk", "0"])
            return ["VERB", v]
        if k == "TIMEOUT":
            return ["TIMEOUT", rng.choice(["100000", "777", "x"])] + \
                rng.choice([[], ["YES"], ["NO"]])
        if k == "QUIT":
            return ["QUIT", rng.choice(["1000", "2000", "y", "0"])] + \
                rng.choice([[], ["YES"], ["NO"]])
        if k in ("int", "str"):
            i = rng.randint(0, n - 1)
            leaf = i not in plan["comps"]
            p = self.path(plan, i) if leaf and rng.random() < 0.6 else \
                rng.choice(["*", "uvm_test_top.*",
                            self.path(plan, i) + ".*"])
            return [k, p, rng.choice(FIELDS[k]), rng.choice(NUMS)
                    if k == "int" else rng.choice(["yes", "a b", "0"])]
        if k == "inst":
            return ["inst", "CmdA", rng.choice(["CmdB", "CmdC"]),
                    rng.choice([p for p in self.patterns(plan)
                                if p != "nobody"])]
        if k == "type":
            return ["type", "CmdA", rng.choice(["CmdB", "CmdC"])] + \
                rng.choice([[], ["0"], ["1"]])
        if k == "seq":
            return ["seq", rng.choice(["uvm_test_top.sq0", "*.sq1", "*",
                                       "uvm_test_top.sq?"]),
                    rng.choice(used) + "_phase",
                    rng.choice(["CmdSeq0", "CmdSeq1"])]
        if k == "TEST":
            return ["TEST", rng.choice(["CmdTest1", "CmdTest2"])]
        if k == "bad":
            return ["raw", rng.choice([
                "+uvm_set_verbosity=*,IDA,UVM_LOW",
                "+uvm_set_verbosity=*,IDA,UVM_LOUD,build",
                "+uvm_set_verbosity=*,_ALL_,UVM_LOW,build,1,2",
                "+uvm_set_action=*,_ALL_,UVM_OUCH,UVM_DISPLAY",
                "+uvm_set_action=*,_ALL_,UVM_INFO,UVM_DISPLAY|UVM_SHOUT",
                "+uvm_set_action=*,_ALL_,UVM_INFO",
                "+uvm_set_severity=*,_ALL_,UVM_INFO,UVM_BAD",
                "+uvm_set_severity=*,_ALL_,INFO,UVM_ERROR",
                "+uvm_set_severity=*,_ALL_,UVM_INFO,UVM_ERROR,1"])]
        return ["raw", rng.choice([
            "+foo", "+foobar=1", "foo.sv", "-uvmx", "+UVM_USER=3", "barfoo",
            "+uvm_set", "+UVM_PHASE_TRACE", "+UVM_CONFIG_DB_TRACE",
            "+UVM_RESOURCE_DB_TRACE", "+UVM_DUMP_CMDLINE_ARGS", "",
            "+uvm=7"])]

    def valid(self, plan):
        n = len(plan["comps"])
        early = any(a[0] == "verb" and a[4] in ("connect", "run",
                    "end_of_elaboration", "start_of_simulation",
                    "pre_reset") for a in plan["args"])
        zero = any(a[0] == "verb" and a[4] == "time" and
                   (len(a) == 5 or a[5] == "0") for a in plan["args"])
        code = any(c[0] in BEFORE + ["run", "pre_reset"] and
                   c[2] in ("verb", "idv") for c in plan["code"])
        size = {"verb": (5, 6), "act": (5,), "sev": (5,), "VERB": (2,),
                "TIMEOUT": (2, 3), "QUIT": (2, 3), "int": (4,), "str": (4,),
                "inst": (4,), "type": (3, 4), "seq": (4,), "TEST": (2,),
                "raw": (2,)}
        return (n > 0 and all(-1 <= p < i for i, p in
                              enumerate(plan["comps"]))
                and all(len(a) in size[a[0]] for a in plan["args"])
                and not any(    # the library's own messages end the run
                    a[0] == "sev" and a[2] == "_ALL_" and a[4] == "UVM_ERROR"
                    and glob(a[1], "") for a in plan["args"])
                and all(c[1] < n for c in plan["code"])
                and not (zero and (early or code)))

    # -- the command line --------------------------------------------------
    HEAD = {"verb": "+uvm_set_verbosity", "act": "+uvm_set_action",
            "sev": "+uvm_set_severity", "VERB": "+UVM_VERBOSITY",
            "TIMEOUT": "+UVM_TIMEOUT", "QUIT": "+UVM_MAX_QUIT_COUNT",
            "int": "+uvm_set_config_int", "str": "+uvm_set_config_string",
            "inst": "+uvm_set_inst_override", "TEST": "+UVM_TESTNAME",
            "type": "+uvm_set_type_override",
            "seq": "+uvm_set_default_sequence"}
    UPPER = ("int", "str", "inst", "type", "seq")

    def text(self, i, a):
        """Settings get distinct offsets, so no two act at one instant."""
        if a[0] == "raw":
            return a[1]
        v = list(a[1:])
        if a[0] == "verb" and len(v) == 5 and v[4] != "0":
            v[4] = str(int(v[4]) + self.skew(i))
        h = self.HEAD[a[0]]
        if a[0] in self.UPPER and (self.plan["pick"] >> i) & 1:
            h = h.upper()
        return h + "=" + ",".join(v)

    def skew(self, i):
        return 7 * i + 3

    async def run(self, ctx, plan):
        Cur.scn = self
        Cur.ctx = ctx
        self.plan = plan
        self.clp = UVMCmdlineProcessor.get_inst()
        before = [list(self.clp.get_args()), list(self.clp.get_plusargs()),
                  list(self.clp.get_uvm_args())]
        self.argv = [self.text(i, a) for i, a in enumerate(plan["args"])]
        self.argv.append("+uvm_end=1")
        self.clp.extract_args(list(self.argv))
        self.queries(ctx, before)
        for a in plan["args"]:
            if a[0] == "raw" and a[1].startswith("+uvm_set_") or \
                    a[-1] in ("x", "y", "junk"):
                ctx.fault("malformed_argument")
        self.lines = []
        rserver().set_logger(self.lines.append)
        self.of = {k: [a for a in plan["args"] if a[0] == k]
                   for k in self.HEAD}
        self.comps, self.models, self.pend = {}, {}, {}
        self.begun, self.seqs, self.serial = {}, {}, 0
        self.ninst, self.bugs = 0, 0
        root().m_check_verbosity()      # (done when the root was created)
        self.level = UVM_MEDIUM
        if self.of["VERB"]:
            v = self.of["VERB"][0][1]
            self.level = VERBS.get(v.replace("UVM_", ""), int(v) if
                                   v.isdigit() and int(v) else UVM_MEDIUM)
        ctx.eq(root().get_report_verbosity_level(), self.level, "verbosity",
               "verbosity of the root")
        await run_test("CmdTest1")
        self.after(ctx, plan)

    def queries(self, ctx, before):
        mine = [a for a in self.argv if a]
        args = before[0] + mine
        ctx.eq(self.clp.get_args(), args, "query", "all arguments")
        ctx.eq(self.clp.get_plusargs(), before[1] + [
            a for a in mine if a[0] == "+"], "query", "plusargs")
        ctx.eq(self.clp.get_uvm_args(), before[2] + [
            a for a in mine if a[0] in "+-" and a[1:4].upper() == "UVM"],
            "query", "UVM arguments")
        for p in ["+foo", "+uvm_set_verbosity=", "+UVM_", "foo", "+",
                  "+UVM_VERBOSITY="] + mine[:2]:
            hits = [a for a in args if a.startswith(p)]
            l = ["old"]
            n = self.clp.get_arg_matches(p, l)
            ctx.eq((n, l), (len(hits), hits), "query", "matches of " + p)
            l = ["old"]
            n = self.clp.get_arg_values(p, l)
            ctx.eq((n, l), (len(hits), [a[len(p):] for a in hits]), "query",
                   "values of " + p)
            l = []
            n = self.clp.get_arg_value(p, l)
            ctx.eq((n, l), (len(hits), [a[len(p):] for a in hits[:1]]),
                   "query", "first value of " + p)
        for r in ["foo", "^foo", "^foo.*\\.sv", "set_(action|severity)",
                  "=[0-9]", "foo(bar)?"]:
            if r[-1] in ")]":           # (would not compile, see below)
                r += "+"
            hits = [a for a in args if re.search(r, a)]
            l = []
            n = self.clp.get_arg_matches("/" + r + "/", l)
            if l != hits and l == [a for a in args if re.search(r[:-1], a)]:
                self.regex_cut(r, l, hits)
                hits = l
            ctx.eq((n, l), (len(hits), hits), "query", "matches of /%s/" % r)

    def regex_cut(self, r, got, want):
        """The known finding: the last character of the expression is lost."""

    # -- creation ----------------------------------------------------------
    def born(self, c, parent):
        ctx = Cur.ctx
        c.idx = -1 if isinstance(c, UVMTest) else int(c.get_name()[1:])
        i = c.idx
        self.comps[i] = c
        m = Model(self.models[self.plan["comps"][i]].maxv if i >= 0
                  else self.level)
        self.models[i] = m
        self.pend[i] = []               # (time, order, id, verbosity)
        name = c.get_full_name()
        for k, a in enumerate(self.plan["args"]):
            if a[0] == "verb" and glob(a[1], name):
                off = self.offset(k, a)
                if off == 0 and a[4] in ("", "build", "time"):
                    self.setv(m, a[2], VERBS[a[3].replace("UVM_", "")])
                    ctx.cov("verbosity_at_creation")
                elif a[4] == "time":
                    self.pend[i].append((off, k, a[2], a[3]))
        for a in self.plan["args"]:
            if a[0] in ("act", "sev") and glob(a[1], name):
                ss = list(SEVS.values()) if a[3] == "_ALL_" else [SEVS[a[3]]]
                ctx.cov(a[0])
                if a[0] == "act":
                    v = 0
                    for x in a[4].split("|"):
                        v |= ACTS[x]
                    if a[2] != "_ALL_" and a[3] == "_ALL_":
                        m.idact[a[2]] = v
                    for s in ss:
                        if a[2] == "_ALL_":
                            m.sact[s] = v
                        elif a[3] != "_ALL_":
                            m.sidact[(s, a[2])] = v
                else:
                    for s in ss:
                        if a[2] == "_ALL_":
                            m.sov[s] = SEVS[a[4]]
                        else:
                            m.siov[(s, a[2])] = SEVS[a[4]]

    def offset(self, k, a):
        if len(a) < 6 or a[5] == "0":
            return 0
        return int(a[5]) + self.skew(k)

    def setv(self, m, id_, v):
        if id_ == "_ALL_":
            m.maxv = v
        else:
            m.idv[id_] = v

    def settle(self, i):
        """Brings a model up to date."""
        now = Cur.ctx.now
        due = sorted(p for p in self.pend[i] if p[0] <= now)
        self.pend[i] = [p for p in self.pend[i] if p[0] > now]
        for t, k, id_, v in due:
            self.setv(self.models[i], id_, VERBS[v.replace("UVM_", "")])
            Cur.ctx.cov("verbosity_later")

    def type_of(self, path):
        for a in self.of["inst"]:
            if glob(a[3], path):
                Cur.ctx.cov("inst_override")
                return a[2]
        t = None
        for a in self.of["type"]:
            if t is None or a[3:] != ["0"]:
                t = a[2]
        if t:
            Cur.ctx.cov("type_override")
        return t or "CmdA"

    # -- phases ------------------------------------------------------------
    def phase_begins(self, c, phase):
        n = phase.get_name()
        i = c.idx
        self.settle(i)
        name = c.get_full_name()
        for k, a in enumerate(self.plan["args"]):
            if a[0] == "verb" and a[4] == n and glob(a[1], name):
                off = self.offset(k, a)
                if off:
                    self.pend[i].append((Cur.ctx.now + off, k, a[2], a[3]))
                elif n != "build":
                    self.setv(self.models[i], a[2],
                              VERBS[a[3].replace("UVM_", "")])
                    Cur.ctx.cov("verbosity_in_phase")
        self.begun[(i, n)] = Cur.ctx.now
        if n in ("build", "final") or n in self.plan["holds"]:
            self.probe(c, n)

    def func(self, c, phase, n):
        ctx = Cur.ctx
        if n == "build":
            self.build_comp(c)
        self.code(c, n)
        self.probe(c, n)

    async def task(self, c, phase, n):
        ctx = Cur.ctx
        h = self.plan["holds"].get(n)
        if h is None:
            return
        self.code(c, n)
        phase.raise_objection(c)
        t0 = ctx.now
        for t in sorted(set(x * 1000 // 1000 // 1000 * 1000 + 999
                            for x in self.plan["probes"])):
            if t < h * 1000:
                await Timer(t0 + t - ctx.now, "PS")
                self.probe(c, n)
        await Timer(t0 + h * 1000 - ctx.now, "PS")
        phase.drop_objection(c)

    def build_comp(self, c):
        ctx, plan = Cur.ctx, self.plan
        if c.idx < 0:
            ts = self.of["TEST"]
            ctx.eq(c.get_type_name(), ts[0][1] if ts else "CmdTest1",
                   "test_name", "test that runs")
            self.global_settings(ctx)
            for k in range(plan["sqrs"]):
                self.seqs[UVMSequencer("sq%d" % k, c).get_full_name()] = {}
        else:
            for kind in FIELDS:
                for f in FIELDS[kind]:
                    l = []
                    got = UVMConfigDb.get(c, "", f, l)
                    exp = self.config(c, kind, f)
                    ctx.eq((bool(got), l[-1:]), (exp is not None,
                           [] if exp is None else [exp]), "config",
                           "%s of %s" % (f, c.get_full_name()))
        for x in plan["code"]:
            if x[2] == "cfg" and c.idx < 0:
                UVMConfigDb.set(c, "*", "f0", 4444)
        for i, p in enumerate(plan["comps"]):
            if p == c.idx:
                k = CmdA.type_id.create("c%d" % i, c)
                ctx.eq(k.get_type_name(), self.type_of(k.get_full_name()),
                       "override", "type of %s" % k.get_full_name())

    def config(self, c, kind, f):
        for a in reversed(self.of[kind]):
            if a[2] == f and glob(a[1], c.get_full_name()):
                Cur.ctx.cov("config_" + kind)
                return number(a[3]) if kind == "int" else a[3]
        if f == "f0" and any(x[2] == "cfg" for x in self.plan["code"]):
            return 4444
        return None

    def global_settings(self, ctx):
        rs, top = rserver(), root()
        for k, get, put in (
                ("QUIT", rs.get_max_quit_count, rs.set_max_quit_count),
                ("TIMEOUT", lambda: top.phase_timeout, top.set_timeout)):
            old = get()
            a = self.of[k][0] if self.of[k] else None
            ok = a is not None and a[1].isdigit()
            if ok:
                ctx.eq(old, int(a[1]), k.lower(), "%s setting" % k)
                ctx.cov(k.lower())
            for x in self.plan["code"]:
                if x[2] == k.lower() or x[2] == "quit" and k == "QUIT":
                    put(5000)
                    want = int(a[1]) if ok and a[2:] == ["NO"] else 5000
                    ctx.eq(get(), want, k.lower(), "%s set in the test" % k)
        for k, id_ in (("VERB", "MULTVERB"), ("TIMEOUT", "MULTTIMOUT"),
                       ("QUIT", "MULTMAXQUIT"), ("TEST", "MULTTST")):
            l = [x for x in self.lines if " [%s] " % id_ in x]
            n = len(self.of[k])
            if self.quiet_root():
                ctx.eq(len(l), 1 if n > 1 else 0, "multiple",
                       "warnings about %s given %d times" % (k, n))

    def quiet_root(self):
        """Nothing on the command line changes what the root reports."""
        return not any(a[0] in ("act", "sev") and glob(a[1], "")
                       for a in self.plan["args"])

    def code(self, c, n):
        for x in self.plan["code"]:
            if x[0] == n and x[1] == c.idx and x[2] in ("verb", "idv"):
                self.settle(c.idx)
                if x[2] == "verb":
                    c.set_report_verbosity_level(x[4])
                    self.models[c.idx].maxv = x[4]
                else:
                    c.set_report_id_verbosity(x[3], x[4])
                    self.models[c.idx].idv[x[3]] = x[4]

    def seq_runs(self, s):
        ph = s.get_starting_phase().get_name()
        q = s.get_sequencer().get_full_name()
        ctx = Cur.ctx
        e = self.seq_for(q, ph)
        ctx.eq(s.get_type_name(), e, "sequence", "sequence of %s in %s"
               % (q, ph))
        ctx.check(ph not in self.seqs[q], "sequence", "started twice")
        self.seqs[q][ph] = 1

    def seq_for(self, q, ph):
        for a in reversed(self.of["seq"]):
            if glob(a[1], q) and a[2] == ph + "_phase":
                return a[3]
        return None

    # -- messages ----------------------------------------------------------
    def probe(self, c, n):
        ctx = Cur.ctx
        i = c.idx
        self.settle(i)
        m = self.models[i]
        ctx.nontrivial = True
        j = self.plan["pick"]
        for id_ in IDS:
            for sev in PROBED:
                self.serial += 1
                verb = LEVELS[(j // (self.serial + 1) + self.serial) %
                              len(LEVELS)]
                s = m.siov.get((sev, id_), sev) if any(
                    k[1] == id_ for k in m.siov) else m.sov.get(sev, sev)
                shown = m.level(sev, id_) >= verb
                act = m.action(s, id_)
                if s == UVM_ERROR and n in BEFORE:
                    continue
                self.say(c, sev, id_, verb, shown and act, s,
                         "%s at %d" % (n, ctx.now))

    def say(self, c, sev, id_, verb, act, s, when):
        ctx = Cur.ctx
        msg = "probe %d" % self.serial
        n0, q0 = sev_count(s), rserver().get_quit_count()
        k0 = len(self.lines)
        {UVM_INFO: c.uvm_report_info, UVM_WARNING: c.uvm_report_warning,
         UVM_ERROR: c.uvm_report_error}[sev](id_, msg, verb)
        what = "%s %s (verbosity %d) of %s in %s" % (
            NAME[sev], id_, verb, c.get_full_name(), when)
        got = [x for x in self.lines[k0:] if x.endswith("] " + msg)]
        ctx.eq(len(got), 1 if act and act & UVM_DISPLAY else 0, "message",
               "displayed lines of " + what)
        if got:
            g = LINE.match(got[0])
            ctx.check(g and g.group(1) == NAME[s], "severity", lambda:
                      "%s: %s" % (what, got[0]))
        ctx.eq(sev_count(s) - n0, 1 if act else 0, "count",
               "counted as %s: %s" % (NAME[s], what))
        ctx.eq(rserver().get_quit_count() - q0,
               1 if act and act & UVM_COUNT and
               rserver().get_max_quit_count() else 0, "count",
               "counted to quit: " + what)

    def after(self, ctx, plan):
        want = []
        for k, a in enumerate(plan["args"]):
            t = a[1] if a[0] == "raw" else ""
            f = t.split("=")[-1].split(",")
            if t.startswith("+uvm_set_") and len(t) > 9:
                want.append("INVLCMDVERB" if "LOUD" in t else "INVLCMDARGS")
            names = [c.get_full_name() for c in self.comps.values()] + [
                s for s in self.seqs] + [""]
            if a[0] in ("act", "sev") and not any(
                    glob(a[1], x) for x in names):
                sub = [x for x in self.seqs if glob(a[1], x + ".x")]
                if sub:                 # (parts of the sequencers)
                    want.append(None)
                else:
                    want.append("INVLCMDARGS")
        if self.quiet_root() and None not in want and not any(
                a[0] == "act" for a in plan["args"]) and not any(
                a[0] == "sev" for a in plan["args"]):
            for id_ in ("INVLCMDVERB", "INVLCMDARGS"):
                bad = sum(1 for k in ("TIMEOUT", "QUIT") if self.of[k] and
                          not self.of[k][0][1].isdigit()) \
                    if id_ == "INVLCMDARGS" else 0
                ctx.eq(len([x for x in self.lines if " [%s] " % id_ in x]),
                       want.count(id_) + bad, "malformed",
                       "%s messages" % id_)
        for q, got in self.seqs.items():
            ctx.eq(sorted(got), sorted(p for p in TASKS if self.seq_for(q, p)),
                   "sequence", "phases of %s with a default sequence" % q)
        if "+UVM_DUMP_CMDLINE_ARGS" in self.argv and self.quiet_root():
            l = [x for x in self.lines if " [DUMPARGS] " in x]
            ctx.check(len(l) == 1 and " ".join(x for x in self.argv if x)
                      in l[0], "dump", lambda: "dumped arguments: %r" % l)
        ctx.check(self.serial > 0, "nothing", "nothing happened")


class CmdCut(CmdLine):
    """Reproduces the finding that expressions lose their last character."""
    name = "command_line_cut"

    def regex_cut(self, r, got, want):
        Cur.ctx.fail("regex_cut", "arguments that match /%s/: got %r, "
                     "expected %r" % (r, got, want))
