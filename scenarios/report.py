"""The reporting machinery: filtering, delivery, counting, report catchers and
the termination of the run, judged against an independent model."""
import random
import re
import sys

from simkit.uvmkit import *
from simkit.uvmkit import Cur, UvmScenario
from uvm.base.uvm_callback import (UVMCallback, UVMCallbacks,
                                   UVMCallbacksBase)
from uvm.base.uvm_report_catcher import UVMReportCatcher, UVMReportCb
from uvm.base.uvm_report_message import UVMReportMessage
from uvm.base.uvm_globals import (uvm_report_error, uvm_report_fatal,
                                  uvm_report_info, uvm_report_warning)
from uvm.base.uvm_misc import UVM_APPEND, UVM_PREPEND

SEVS = [UVM_INFO, UVM_WARNING, UVM_ERROR, UVM_FATAL]
NAME = {UVM_INFO: "UVM_INFO", UVM_WARNING: "UVM_WARNING",
        UVM_ERROR: "UVM_ERROR", UVM_FATAL: "UVM_FATAL"}
IDS = ["IDA", "IDB", "IDC"]
VERBS = [UVM_NONE, UVM_LOW, UVM_MEDIUM, UVM_HIGH, UVM_FULL, UVM_DEBUG, 137]
D, L, C, E, R = UVM_DISPLAY, UVM_LOG, UVM_COUNT, UVM_EXIT, UVM_RM_RECORD
LINE = re.compile(r"^(UVM_\w+)(\((\w+)\))? (?:(\S+)\((\d+)\) )?@ (\S+): "
                  r"(\S*?)(?:@@(\S+))? \[(\S+)\] (.*?)( -UVM_\w+)?$", re.S)


class FullDisk(object):
    """A log file on a full disk."""
    closed = False
    n = 0

    def write(self, s):
        self.n += 1
        Cur.ctx.fault("disk_full")
        raise OSError(28, "No space left on device")

    def close(self):
        pass


class Boom(Exception):
    pass


class Rep(UVMComponent):
    idx = None

    def say(self, sev, id_, msg, verb):
        """Through the message macros; returns the line of the call."""
        at = sys._getframe().f_lineno
        if sev == UVM_INFO:
            Cur.scn.line = at + 3
            uvm_info(id_, msg, verb)
        elif sev == UVM_WARNING:
            Cur.scn.line = at + 6
            uvm_warning(id_, msg)
        elif sev == UVM_ERROR:
            Cur.scn.line = at + 9
            uvm_error(id_, msg)
        else:
            Cur.scn.line = at + 12
            uvm_fatal(id_, msg)

    def pre_abort(self):
        Cur.scn.aborts.append(self.idx)


class Catcher(UVMReportCatcher):
    spec = None
    k = None

    def catch(self):
        return Cur.scn.catching(self)


class Model(object):
    """What one report handler is configured to do."""

    def __init__(self, level):
        self.maxv = level
        self.idv, self.sidv = {}, {}
        self.sact = {UVM_INFO: D, UVM_WARNING: D, UVM_ERROR: D | C,
                     UVM_FATAL: D | E}
        self.idact, self.sidact = {}, {}
        self.dfile, self.sfile, self.idfile, self.sidfile = 0, {}, {}, {}
        self.sov, self.siov = {}, {}

    def level(self, s, i):
        return self.sidv.get((s, i), self.idv.get(i, self.maxv))

    def action(self, s, i):
        return self.sidact.get((s, i), self.idact.get(i, self.sact[s]))

    def file(self, s, i):
        for t, k in ((self.sidfile, (s, i)), (self.idfile, i),
                     (self.sfile, s)):
            if t.get(k, 0) != 0:
                return t[k]
        return self.dfile


class ReportBase(UvmScenario):
    catchers = False
    exits = False

    # -- plan ------------------------------------------------------------
    def gen(self, rng, tier):
        n = rng.randint(1, 5)
        self_c = self.catchers
        plan = {"comps": [rng.randint(-1, i - 1) if i else -1
                          for i in range(n)],
                "files": rng.choice([0, 1, 2, 3]),
                "testv": rng.choice(VERBS),
                "full": rng.random() < 0.15,
                "showv": rng.random() < 0.2, "showt": rng.random() < 0.2,
                "quit": 0, "catch": [], "clients": []}
        if self.exits:
            plan["quit"] = rng.choice([0, 1, 2, 3, 5, 8])
        # often everything is about one reporter, one severity, few settings
        self.hot = rng.random() < 0.5 and [
            rng.randint(-1, n), rng.choice(SEVS[:3]),
            rng.sample(range(12), 3)]
        if self_c:
            for _ in range(rng.randint(1, 5)):
                plan["catch"].append(self.gen_catcher(rng))
        chain = self_c and rng.random() < 0.2
        if chain:
            # catchers that all change the severity or the action
            for c in plan["catch"]:
                c.update(sev=-1, id="", do=rng.choice(
                    ["sev", "sev", "same", "act", "sevact"]))
                c["v"] = self.act(rng) if c["do"] == "act" else \
                    rng.choice(SEVS if self.exits else SEVS[:3])
        big = tier != "quick"
        for _ in range(rng.randint(1, 4)):
            plan["clients"].append(
                [[rng.choice([0, 0, 0, 1, 2, -1])] + self.gen_op(rng, plan)
                 for _ in range(rng.randint(3, 60 if big else 25))])
        if chain:
            plan["clients"][0][:0] = [[0, "cadd", i, -2, rng.random() < 0.3]
                                      for i in range(len(plan["catch"]))]
        return plan

    def act(self, rng):
        a = [0, D, D, D | C, D | L, L, C, D | L | C, L | C, D | R]
        if self.exits:
            a += [D | E, E]
        return rng.choice(a)

    def gen_catcher(self, rng):
        act = rng.choice(["throw", "caught", "sev", "sev", "id", "msg",
                          "act", "sevact", "issue", "raise", "say", "unknown",
                          "verb"])
        v = 0
        if act in ("sev", "sevact"):
            v = rng.choice(SEVS if self.exits else SEVS[:3])
        elif act == "act":
            v = self.act(rng)
        return {"sev": rng.choice(SEVS + [-1, -1, -1]),
                "id": rng.choice(IDS + ["", "", ""]), "do": act, "v": v,
                "a": rng.choice([D, D, D | C, D | C, self.act(rng)])}

    def gen_op(self, rng, plan):
        n = len(plan["comps"])
        k = rng.random()
        if k < (0.6 if not self.catchers else 0.75):
            sev = rng.choice(SEVS)
            if sev == UVM_FATAL and (not self.exits or rng.random() < 0.7):
                sev = rng.choice(SEVS[:3])
            hot = self.hot and rng.random() < 0.6
            return ["rep", self.hot[0] if hot else rng.randint(-1, n),
                    self.hot[1] if hot else sev, rng.choice(IDS),
                    rng.choice(VERBS),
                    rng.choice(["method", "method", "macro", "macro", "msg"])]
        if self.catchers and k < 0.92:
            i = rng.randrange(len(plan["catch"]))
            if rng.random() < 0.15:
                return ["oadd", rng.choice([-2, -1] + list(range(n + 1)))]
            if rng.random() < 0.6:
                return ["cadd", i, rng.choice([-2, -2, -1] +
                                              list(range(n + 1))),
                        rng.random() < 0.3]
            return ["cmode", i, rng.randint(0, 1)]
        comp, sev, id_ = rng.randint(0 if self.exits else -1, n), \
            rng.choice(SEVS), rng.choice(IDS)
        hot = self.hot and rng.random() < 0.7
        if hot and (self.hot[0] >= 0 or not self.exits):
            comp, sev = self.hot[:2]
        hier = comp >= 0 and rng.random() < 0.4
        f = rng.randint(0, plan["files"] + (1 if plan["full"] and comp >= 0
                                            else 0))
        ops = [["verb", comp, rng.choice(VERBS), hier],
               ["idv", comp, id_, rng.choice(VERBS), hier],
               ["sidv", comp, sev, id_, rng.choice(VERBS), hier],
               ["sact", comp, sev, self.act(rng), hier],
               ["idact", comp, id_, self.act(rng), hier],
               ["sidact", comp, sev, id_, self.act(rng), hier],
               ["dfile", comp, f, hier], ["sfile", comp, sev, f, hier],
               ["idfile", comp, id_, f, hier],
               ["sidfile", comp, sev, id_, f, hier],
               ["sov", comp, sev, rng.choice(SEVS[:3])],
               ["siov", comp, id_, sev, rng.choice(SEVS[:3])]]
        if plan["files"] and rng.random() < 0.05:
            return ["close", rng.randint(1, plan["files"])]
        if self.exits and rng.random() < 0.1:
            return ["quit", rng.choice([0, 0, 1, 2, 4])]
        op = ops[rng.choice(self.hot[2])] if hot else rng.choice(ops)
        if op[0] in ("sact", "sidact") and op[2] == UVM_FATAL \
                and not self.exits:
            op[2] = UVM_ERROR
        return op

    def valid(self, plan):
        n = len(plan["comps"])
        nc = len(plan["catch"])
        return (n > 0 and all(-1 <= p < i for i, p in
                              enumerate(plan["comps"]))
                and all(o[1] != "rep" or -1 <= o[2] <= n
                        for c in plan["clients"] for o in c)
                and all(o[1] not in ("cadd", "cmode") or o[2] < nc
                        for c in plan["clients"] for o in c)
                and all(o[1] in ("close", "quit", "cmode") or
                        o[1] == "oadd" and o[2] <= n or
                        o[1] == "cadd" and o[3] <= n or
                        o[1] != "cadd" and o[2] <= n
                        for c in plan["clients"] for o in c)
                and all(o[1] != "close" or 0 < o[2] <= plan["files"]
                        for c in plan["clients"] for o in c)
                and all(v >= -2 for c in plan["clients"] for v in
                        [o[0] for o in c]))

    # -- bench -----------------------------------------------------------
    async def run(self, ctx, plan):
        Cur.scn = self
        Cur.ctx = ctx
        self.plan = plan
        self.lines = []
        self.aborts = []
        self.exited = 0
        self.line = None
        self.reps = []
        self.models = []
        self.qs = {}                # reporter -> its own list of catchers
        self.tw = []                # catchers of every reporter
        self.on = [True] * len(plan["catch"])
        self.caught = {s: 0 for s in SEVS}
        self.demoted = {s: 0 for s in SEVS}
        self.serial = 0
        self.ended = False
        await run_test("SimTest")
        self.finale(ctx)

    def build(self, test):
        ns = [test]
        test.set_report_verbosity_level(self.plan["testv"])
        levels = [self.plan["testv"]]
        for i, p in enumerate(self.plan["comps"]):
            c = Rep("c%d" % i, test if p < 0 else ns[p + 1])
            levels.append(levels[p + 1])        # inherited at creation
            c.idx = i
            ns.append(c)
        self.reps = ns                  # 0 is the test
        self.models = [Model(v) for v in levels] + [
            Model(root().get_report_max_verbosity_level())]  # -1: the root
        self.catchers_ = []
        for i, s in enumerate(self.plan["catch"]):
            c = Catcher("catch%d" % i)
            c.k, c.spec = i, s
            self.catchers_.append(c)

    def reporter(self, i):
        return root() if i < 0 else self.reps[i]

    def subtree(self, i, hier):
        out = [i]
        if hier:
            for j, p in enumerate(self.plan["comps"]):
                if p + 1 in out:
                    out.append(j + 1)
        return out

    async def main(self, test, phase):
        ctx = Cur.ctx
        rs = rserver()
        rs.set_logger(self.lines.append)
        rs.show_verbosity = self.plan["showv"]
        rs.show_terminator = self.plan["showt"]
        rs.set_max_quit_count(self.plan["quit"])
        rs.set_quit_count(0)
        if self.exits:              # let the summaries through
            root().set_report_verbosity_level(UVM_LOW)
            self.models[-1].maxv = UVM_LOW
        self.maxq, self.quit = self.plan["quit"], 0
        self.counts = {s: sev_count(s) for s in SEVS}
        self.ids = {i: rs.get_id_count(i) for i in IDS + ["RPTCTHR", "CSAY"]}
        self.files = [None]
        self.ftext = [None]
        for i in range(self.plan["files"]):
            self.files.append(open("log%d.txt" % i, "w"))
            self.ftext.append([])
        if self.plan["full"]:
            self.files.append(FullDisk())
            self.ftext.append(None)
        ts = [ctx.spawn(self.client(c)) for c in self.plan["clients"]]
        for t in ts:
            await t

    async def client(self, ops):
        for op in ops:
            await Cur.ctx.delay(op[0])
            if self.exited:         # on its way out
                return
            self.do(op[1:])

    # -- operations ------------------------------------------------------
    def do(self, op):
        ctx = Cur.ctx
        k = op[0]
        UVMCallbacksBase.m_tracing = 0
        if k == "rep":
            self.report(*op[1:])
        elif k == "close":
            self.files[op[1]].close()
            ctx.fault("log_closed")
        elif k == "quit":
            rserver().set_max_quit_count(op[1])
            self.maxq = op[1]
        elif k == "cmode":
            self.catchers_[op[1]].callback_mode(op[2])
            self.on[op[1]] = bool(op[2])
        elif k == "cadd":
            self.add_catcher(op[1], op[2], op[3])
        elif k == "oadd":               # a callback that is no catcher
            self.serial += 1
            UVMCallbacks.add(None if op[1] == -2 else self.reporter(op[1]),
                             UVMCallback("other%d" % self.serial))
            if op[1] != -2 and op[1] not in self.qs:
                self.qs[op[1]] = list(self.tw)
        else:
            self.configure(op)
        ctx.rec(*op)

    def add_catcher(self, k, comp, first):
        # known before -> the repeat is ignored (with a warning)
        if comp == -2:
            dup = k in self.tw
        else:
            dup = k in (self.qs[comp] if comp in self.qs else self.tw)
        if dup:
            return
        UVMReportCb.add(None if comp == -2 else self.reporter(comp),
                        self.catchers_[k],
                        UVM_PREPEND if first else UVM_APPEND)
        if comp != -2 and comp not in self.qs:
            self.qs[comp] = list(self.tw)
        for q in ([self.tw] + list(self.qs.values()) if comp == -2
                  else [self.qs[comp]]):
            if k not in q:
                if first:
                    q.insert(0, k)
                else:
                    q.append(k)

    def configure(self, op):
        k, comp = op[0], op[1]
        rep = self.reporter(comp)
        fns = {"verb": "verbosity_level", "idv": "id_verbosity",
               "sidv": "severity_id_verbosity", "sact": "severity_action",
               "idact": "id_action", "sidact": "severity_id_action",
               "dfile": "default_file", "sfile": "severity_file",
               "idfile": "id_file", "sidfile": "severity_id_file",
               "sov": "severity_override", "siov": "severity_id_override"}
        if k in ("sov", "siov"):
            args, hier = op[2:], False
            if k == "siov":         # (current, id, new)
                args = [op[3], op[2], op[4]]
        else:
            args, hier = op[2:-1], op[-1]
        real = list(args)
        if k.endswith("file"):
            real[-1] = self.files[args[-1]] if args[-1] else 0
        getattr(rep, "set_report_" + fns[k] + ("_hier" if hier else ""))(
            *real)
        for i in self.subtree(comp, hier):
            m = self.models[i]
            if k == "verb":
                m.maxv = args[0]
            elif k == "dfile":
                m.dfile = args[0]
            elif k == "siov":
                m.siov[(args[0], args[1])] = args[2]
            elif len(args) == 2:
                getattr(m, k)[args[0]] = args[1]
            else:
                getattr(m, k)[(args[0], args[1])] = args[2]

    # -- one report ------------------------------------------------------
    def report(self, comp, sev, id_, verb, how):
        ctx = Cur.ctx
        ctx.nontrivial = True
        self.serial += 1
        msg = "message %d" % self.serial
        rep = self.reporter(comp)
        m = self.models[comp]
        if how == "macro" and (comp < 1):
            how = "method"
        if how == "macro" and sev != UVM_INFO:
            verb = UVM_NONE
        # the library itself may have reported something meanwhile
        self.counts = {s: sev_count(s) for s in SEVS}
        exp = self.expect(comp, m, sev, id_, verb, how, msg)
        n0, rs = len(self.lines), rserver()
        n1 = [len(t) if t is not None else 0 for t in self.ftext]
        self.line = None
        self.cur = {"exp": exp, "i": 0}
        rnd = random.getstate()
        err = None
        try:
            if how == "macro":
                rep.say(sev, id_, msg, verb)
            elif how == "msg":
                x = UVMReportMessage.new_report_message()
                x.set_report_message(sev, id_, msg, verb, "f.sv", 7, "ctx")
                rep.uvm_process_report_message(x)
            elif comp < 0:
                {UVM_INFO: uvm_report_info, UVM_WARNING: uvm_report_warning,
                 UVM_ERROR: uvm_report_error,
                 UVM_FATAL: uvm_report_fatal}[sev](
                     id_, msg, verb, "f.sv", 7)
            else:
                {UVM_INFO: rep.uvm_report_info,
                 UVM_WARNING: rep.uvm_report_warning,
                 UVM_ERROR: rep.uvm_report_error,
                 UVM_FATAL: rep.uvm_report_fatal}[sev](
                     id_, msg, verb, "f.sv", 7)
        except (UVMFinishError, OSError, Boom) as e:
            err = e
        what = "report %r of %s" % ([NAME[sev], id_, verb, how], comp)
        ctx.eq(self.cur["i"], len(exp["asked"]), "catchers",
               "catchers asked for " + what)
        if how != "msg" and err is None:
            ctx.check(random.getstate() == rnd, "random", lambda:
                      what + " changed the state of the random generator")
        got = self.lines[n0:]
        self.judge(exp, got, what, err)
        self.tally(exp, what)
        if exp["exit"]:
            self.exited += 1
            ctx.cov("exit")
            raise err

    def expect(self, comp, m, sev, id_, verb, how, msg):
        """Everything this report should cause."""
        e = {"out": [], "asked": [], "boom": False, "exit": False,
             "disk": False}
        if how != "msg" and m.level(sev, id_) < verb:
            return e
        if any(i == id_ for _, i in m.siov):
            sev = m.siov.get((sev, id_), sev)
        else:
            sev = m.sov.get(sev, sev)
        x = {"sev": sev, "id": id_, "verb": verb, "msg": msg, "comp": comp,
             "act": m.action(sev, id_), "file": m.file(sev, id_),
             "how": how}
        sev0, thrown = sev, True
        for k in self.qs.get(comp, self.tw):
            if not self.on[k]:
                continue
            s = self.plan["catch"][k]
            e["asked"].append((k, x["sev"], x["id"], x["msg"], x["act"]))
            if s["sev"] not in (-1, x["sev"]) or s["id"] not in ("", x["id"]):
                continue
            old, do, acted = x["sev"], s["do"], False
            if do == "raise":
                e["boom"] = True
                return e
            if do in ("sev", "sevact"):
                x["sev"] = s["v"]
            if do == "sevact":
                x["act"] = s["a"]
                acted = True
            if do == "act":
                x["act"] = s["v"]
                acted = True
            if do == "same":
                acted = True
            if do == "id":
                x["id"] = "IDC"
            if do == "msg":
                x["msg"] += "+"
            if do == "verb":
                x["verb"] = UVM_DEBUG
            if do == "say":
                y = dict(x, sev=UVM_INFO, id="CSAY", msg="said", how="say",
                         verb=UVM_NONE, act=m.action(UVM_INFO, "CSAY"),
                         file=m.file(UVM_INFO, "CSAY"))
                if root_level() >= UVM_NONE and self.emit(e, y):
                    return e
            if do == "unknown":
                y = dict(x, sev=UVM_ERROR, id="RPTCTHR", msg=None, how="say",
                         verb=UVM_NONE, act=m.action(UVM_ERROR, "RPTCTHR"),
                         file=m.file(UVM_ERROR, "RPTCTHR"))
                if self.emit(e, y):
                    return e
            if do == "issue":
                if self.emit(e, x):
                    return e
            if (not acted and x["sev"] != old and
                    x["act"] == m.action(old, "-")):
                x["act"] = m.action(x["sev"], "-")
            if do in ("caught", "issue"):
                thrown = False
                self.caught[sev0] += 1
                break
        if x["sev"] < sev0:
            self.demoted[sev0] += 1
        if thrown:
            self.emit(e, x)
        return e

    def emit(self, e, x):
        """Executes a report in the model; True if the run ends here."""
        if x["act"] == 0:
            return False
        x = dict(x)
        self.counts[x["sev"]] += 1
        self.ids[x["id"]] += 1
        e["out"].append(x)
        a = x["act"]
        if a & L and x["file"] and self.ftext[x["file"]] is None:
            e["disk"] = True
            return True
        if a & C and self.maxq:
            self.quit += 1
            if self.quit >= self.maxq:
                a |= E
        if a & E:
            e["exit"] = True
            return True
        return False

    def judge(self, exp, got, what, err):
        ctx = Cur.ctx
        kind = (UVMFinishError if exp["exit"] else Boom if exp["boom"]
                else OSError if exp["disk"] else None)
        if exp["disk"] and not isinstance(err, UVMFinishError):
            # whether the caller hears of a full disk is not specified
            kind = type(err) if err is not None else None
            self.quit = rserver().get_quit_count()
        ctx.check((err is None) == (kind is None) and
                  (kind is None or isinstance(err, kind)), "exit", lambda:
                  "%s ended with %r, expected %s" % (
                      what, err, kind and kind.__name__))
        if exp["exit"]:
            got = self.summary(got, what)
        for x in exp["out"]:
            n = 1 if x["act"] & D else 0
            soft = 0
            if x["act"] & L:
                if not x["file"]:
                    soft = 1            # no file: may fall back to stdout
                elif self.ftext[x["file"]] is not None:
                    if self.files[x["file"]].closed:
                        soft = 1
                    else:
                        self.ftext[x["file"]].append(x)
                        ctx.cov("logged")
            k = 0
            while k < n + soft and got and self.same(got[0], x, what,
                                                     k >= n):
                got = got[1:]
                k += 1
            ctx.check(k >= n, "display", lambda:
                      "%s: displayed %r, expected %r" % (what, got, x))
            if n:
                ctx.cov("displayed")
        ctx.eq(got, [], "display", "lines displayed too many for " + what)

    def same(self, line, x, what, soft):
        if soft and line.startswith("UVM_WARNING. File already closed"):
            return "[%s] " % x["id"] in line
        g = LINE.match(line)
        if g is None:
            return False
        sev, _, vb, fn, ln, time, name, cx, id_, msg, term = g.groups()
        if (sev, id_) != (NAME[x["sev"]], x["id"]):
            return False
        if x["msg"] is not None and msg != x["msg"]:
            return False
        ctx = Cur.ctx
        comp = x["comp"]
        ctx.eq(name, "reporter" if comp < 0 else
               self.reps[comp].get_full_name(), "text",
               "reporter shown for " + what)
        ctx.eq(float(time[:-2]) * 1000, float(ctx.now), "text",
               "time shown for " + what)
        ctx.check((vb is not None) == self.plan["showv"] and
                  (vb is None or vb in (str(x["verb"]), VNAMES.get(x["verb"]))
                   ), "text", lambda: "verbosity shown for %s: %s" % (
                      what, vb))
        ctx.eq(term, " -" + NAME[x["sev"]] if self.plan["showt"] else None,
               "text", "terminator shown for " + what)
        if x["how"] in ("method", "msg"):
            ctx.eq((fn, ln), ("f.sv", "7"), "text", "origin of " + what)
        elif x["how"] == "macro":
            ctx.check(fn.endswith("report.py") and int(ln) == self.line,
                      "text", lambda: "origin of %s: %s %s" % (what, fn, ln))
        if x["how"] == "msg":
            ctx.eq(cx, "ctx", "text", "context of " + what)
        return True

    def tally(self, exp, what):
        ctx = Cur.ctx
        rs = rserver()
        ctx.eq({s: sev_count(s) for s in SEVS},
               {s: n + (1 if exp["exit"] and s == UVM_INFO else 0) *
                (self.extra) for s, n in self.counts.items()}
               if exp["exit"] else self.counts,
               "counts", "severity counts after " + what)
        ctx.eq({i: rs.get_id_count(i) for i in self.ids}, self.ids, "counts",
               "id counts after " + what)
        ctx.eq(rs.get_quit_count(), self.quit, "quit",
               "quit count after " + what)

    extra = 0

    # -- the end ---------------------------------------------------------
    def summary(self, got, what):
        """Split off what die() prints; check it."""
        ctx = Cur.ctx
        s = [x for x in got if "--- UVM Report Summary ---" in x]
        c = [x for x in got if "UVM Report catcher Summary" in x]
        ctx.eq(len(s), 1, "summary", "number of summaries after " + what)
        self.extra = len([x for x in s + c if x.startswith("UVM_INFO")])
        for sev in SEVS:
            ctx.check(re.search(r"^%s : %d$" % (
                NAME[sev], self.counts[sev] + (
                    len(c) if sev == UVM_INFO else 0)), s[0], re.M),
                "summary", lambda: "summary shows wrong %s (%d): %s" % (
                    NAME[sev], self.counts[sev], s[0]))
        for i, n in self.ids.items():
            ctx.check(not n or re.search(r"^\[%s\] %d$" % (i, n), s[0], re.M),
                      "summary", lambda: "summary shows wrong [%s] (%d): %s"
                      % (i, n, s[0]))
        if self.maxq:
            ctx.check("Quit count : %d of %d" % (self.quit, self.maxq)
                      in s[0] and ("reached" in s[0]) == (
                          self.quit >= self.maxq), "summary", lambda:
                      "quit count in the summary: " + s[0])
        if c:
            self.catch_summary(c[0])
        order = self.aborts
        ctx.eq(sorted(order), list(range(len(self.plan["comps"]))), "abort",
               "components given the chance to react to " + what)
        for i, p in enumerate(self.plan["comps"]):
            ctx.check(p < 0 or order.index(i) < order.index(p), "abort",
                      lambda: "pre-abort order %r" % order)
        return [x for x in got if x not in s and x not in c]

    def catch_summary(self, text):
        for kind, t in (("demoted", self.demoted), ("caught", self.caught)):
            for s in SEVS[1:]:
                Cur.ctx.check(re.search(r"%s %s reports *:%d$" % (
                    kind, NAME[s], t[s]), text, re.M), "catch_counts",
                    lambda: "%s %s should be %d: %s" % (kind, NAME[s], t[s],
                                                        text))

    def on_exception(self, ctx, plan, e):
        if isinstance(e, UVMFinishError) and self.exited == 1:
            self.finale(ctx)
            return None, None
        return "exception", repr(e)

    def finale(self, ctx):
        if not self.models or self.ended:
            return
        self.ended = True
        for f in self.files[1:]:
            f.close()
        for i, t in enumerate(self.ftext):
            if t is None:
                continue
            with open("log%d.txt" % (i - 1)) as f:
                ls = [a for a in f.read().splitlines() if a.startswith(
                    "UVM_") and any("[%s] " % k in a for k in self.ids)]
            # (the library reports through the root as well)
            ctx.eq(len(ls), len(t), "log", "lines in log file %d" % i)
            for a, x in zip(ls, t):
                ctx.check("[%s] " % x["id"] in a and a.startswith(
                    NAME[x["sev"]]) and (x["msg"] is None or x["msg"] in a),
                    "log", lambda: "log line %r, expected %r" % (a, x))
        if not self.exited:
            ctx.eq(self.aborts, [], "abort", "pre-abort calls")
            n = len(self.lines)
            rserver().get_summary_string()
            for x in self.lines[n:]:
                if "catcher Summary" in x:
                    self.catch_summary(x)

    # -- catchers --------------------------------------------------------
    def catching(self, c):
        ctx = Cur.ctx
        s = c.spec
        if c.get_id() not in IDS:
            return 1
        i = self.cur["i"]
        self.cur["i"] += 1
        exp = self.cur["exp"]["asked"]
        got = (c.k, c.get_severity(), c.get_id(), c.get_message(),
               c.get_action())
        ctx.eq(got, exp[i] if i < len(exp) else None, "catchers",
               "what catcher %d is asked (catcher, severity, id, message, "
               "action)" % i)
        if s["sev"] not in (-1, got[1]) or s["id"] not in ("", got[2]):
            return 1
        do = s["do"]
        ctx.cov("catch_" + do)
        if do == "raise":
            ctx.fault("catcher_raises")
            raise Boom("from catcher")
        if do in ("sev", "sevact"):
            c.set_severity(s["v"])
        if do == "sevact":
            c.set_action(s["a"])
        if do == "act":
            c.set_action(s["v"])
        if do == "same":
            c.set_action(c.get_action())
        if do == "id":
            c.set_id("IDC")
        if do == "msg":
            c.set_message(c.get_message() + "+")
        if do == "verb":
            c.set_verbosity(UVM_DEBUG)
        if do == "say":
            c.uvm_report_info("CSAY", "said", UVM_NONE, "f.sv", 7)
        if do == "issue":
            c.issue()
        return {"caught": 2, "issue": 2, "unknown": 0}.get(do, 1)


VNAMES = {UVM_NONE: "UVM_NONE", UVM_LOW: "UVM_LOW", UVM_MEDIUM: "UVM_MEDIUM",
          UVM_HIGH: "UVM_HIGH", UVM_FULL: "UVM_FULL", UVM_DEBUG: "UVM_DEBUG"}


def root_level():
    return root().get_report_verbosity_level(UVM_INFO, "CSAY")


class ReportDelivery(ReportBase):
    name = "report_delivery"


class ReportCatchers(ReportBase):
    name = "report_catchers"
    catchers = True


class ReportExit(ReportBase):
    name = "report_exit"
    catchers = True
    exits = True

    def gen(self, rng, tier):
        self.catchers = rng.random() < 0.5
        return super().gen(rng, tier)
