"""One simulated execution: plan + decisions -> result.  No forking here."""
import gc
import hashlib
import io
import os
import random
import signal
import sys
import traceback
import warnings

from . import fakesim
from .decide import Decider

REPO = os.environ.get("SIMKIT_REPO", "/repo")
_booted = False


def boot():
    """Install the stub kernel and import the code under test (once)."""
    global _booted
    if _booted:
        return
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    warnings.simplefilter("ignore")
    fakesim.install()
    import logging
    logging.disable(logging.CRITICAL)
    import uvm  # noqa: F401
    assert os.path.realpath(uvm.__file__).startswith(
        os.path.realpath(src) + os.sep), uvm.__file__
    _booted = True


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


class Skip(Exception):
    """The plan cannot be executed meaningfully (counted, not judged)."""


class Ctx(object):
    """What a scenario sees of the simulator."""

    def __init__(self, plan, decider):
        self.plan = plan
        self.decider = decider
        self.violations = []
        self.faults = {}
        self.covs = set()
        self.states = set()
        self.messages = []      # what the report server printed
        self.hist = []          # recorded history
        self.kernel = fakesim.KERNEL
        self.sched = None
        self.expect_exc = None
        self.scratch = None
        self.nontrivial = False
        self.tasks = []

    # -- verdicts --------------------------------------------------------
    def fail(self, kind, msg=""):
        v = Violation(kind, msg)
        self.violations.append((kind, str(msg)))
        raise v

    def check(self, cond, kind, msg=""):
        if not cond:
            self.fail(kind, msg() if callable(msg) else msg)

    def eq(self, got, want, kind, what=""):
        if got != want:
            self.fail(kind, "%s got=%r want=%r" % (what, got, want))

    # -- bookkeeping -----------------------------------------------------
    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def cov(self, name):
        self.covs.add(name)

    def state(self, *t):
        self.states.add(hashlib.blake2b(
            repr(t).encode(), digest_size=6).hexdigest())

    def rec(self, *ev):
        self.hist.append((self.now,) + ev)

    @property
    def now(self):
        return self.kernel.now

    def choose(self, n):
        return self.decider.choose(n, "fault")

    # -- tasks -----------------------------------------------------------
    def spawn(self, coro):
        import cocotb
        t = cocotb.start_soon(coro)
        self.tasks.append(t)
        return t

    async def delay(self, n):
        """Wait n virtual time units; 0 returns at once; -1 is one delta."""
        if n > 0:
            from cocotb.triggers import Timer
            await Timer(n, "NS")
        elif n < 0:
            from cocotb.triggers import NullTrigger
            for _ in range(-n):
                await NullTrigger()

    async def quiesce(self, t=1):
        """Let everything that can run at this time run."""
        from cocotb.triggers import Timer
        await Timer(t, "NS")

    def kill(self, task):
        self.fault("task_kill")
        task.kill()

    async def half(self):
        """Shift the observer by half a unit: it then looks at the bench
        between, never in the middle of, the time slots of the actors."""
        from cocotb.triggers import Timer
        await Timer(500, "PS")

    # -- uvm -------------------------------------------------------------
    def capture(self, loud=False):
        from uvm.base.uvm_report_server import UVMReportServer
        rs = UVMReportServer.get_server()
        rs.set_logger(self.messages.append)
        if not loud:
            from uvm.base.uvm_coreservice import UVMCoreService
            UVMCoreService.get().get_root().set_report_verbosity_level(0)
        return rs

    def scratch_dir(self):
        return self.scratch


class _Sink(io.TextIOBase):
    def __init__(self):
        self.n = 0
        self.last = []

    def write(self, s):
        self.n += len(s)
        if len(self.last) < 200:
            self.last.append(s)
        return len(s)


class CpuLimit(BaseException):
    pass


def _alarm(signum, frame):
    raise CpuLimit()


def _short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    out = []
    for f in tb[-6:]:
        fn = f.filename
        if "/repo/" in fn:
            fn = fn.split("/repo/", 1)[1]
        else:
            fn = os.path.basename(fn)
        out.append("%s:%s" % (fn, f.name))
    return " > ".join(out)


def execute(scn, plan, decider, max_steps=None, cpu_limit=20, trace=False,
            scratch=None):
    """Run scenario scn on plan.  Returns a JSON-able dict."""
    boot()
    import cocotb
    from .sched import PerturbScheduler, StepLimit
    k = fakesim.KERNEL
    k.reset()
    k.decider = decider
    ctx = Ctx(plan, decider)
    ctx.scratch = scratch
    random.seed(0)
    finished = []
    sched = PerturbScheduler(lambda t: finished.append(t), decider,
                             max_steps or scn.max_steps)
    sched.kernel = k
    if trace:
        sched.trace = []
    ctx.sched = sched
    cocotb.scheduler = sched
    from cocotb.decorators import test as ctest
    s = scn()
    s.ctx = ctx

    async def body(dut):
        await s.run(ctx, plan)
    body.__qualname__ = body.__name__ = "TEST"
    t = ctest(body)(None)
    sink = _Sink()
    old = sys.stdout, sys.stderr
    status = "ok"
    old_prof = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu_limit)
    try:
        sys.stdout = sys.stderr = sink
        try:
            ctx.capture(scn.loud)
            sched._add_test(t)
            more = k.run(lambda: t._outcome is not None)
            signal.setitimer(signal.ITIMER_PROF, 0)
            if not more and t._outcome is None:
                status = "deadlock"
            elif t._outcome is not None:
                e = getattr(t._outcome, "error", None)
                if e is not None:
                    status = "exc"
                    if isinstance(e, Skip):
                        status = "skip"
                    elif isinstance(e, Violation):
                        if not ctx.violations:
                            ctx.violations.append((e.kind, e.msg))
                    elif ctx.violations:
                        pass
                    else:
                        ctx.exc = e
                        kind, msg = s.on_exception(ctx, plan, e)
                        if kind:
                            ctx.violations.append((kind, msg))
            if status == "deadlock" and not ctx.violations:
                kind, msg = s.on_deadlock(ctx, plan)
                if kind:
                    ctx.violations.append((kind, msg))
            if not ctx.violations and status != "skip":
                # checks over the recorded history
                try:
                    s.finish(ctx, plan)
                except Violation as v:
                    if not ctx.violations:
                        ctx.violations.append((v.kind, v.msg))
        except StepLimit:
            status = "livelock"
            kind, msg = s.on_livelock(ctx, plan)
            if kind and not ctx.violations:
                ctx.violations.append((kind, msg))
        except CpuLimit:
            status = "hang"
            ctx.violations.append(
                ("hang", "a task ran without yielding for %ds of CPU"
                 % cpu_limit))
        except MemoryError:
            status = "memory"
            ctx.violations.append(("memory", "memory limit exceeded"))
        except Violation as v:
            status = "exc"
            if not ctx.violations:
                ctx.violations.append((v.kind, v.msg))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old_prof)
        sys.stdout, sys.stderr = old
    return {
        "status": status,
        "violations": [[a, b[:2000]] for a, b in ctx.violations[:3]],
        "fp": decider.fingerprint(),
        "choices": decider.n_nontrivial,
        "steps": sched.n_steps,
        "simtime": k.now,
        "faults": ctx.faults,
        "covs": sorted(ctx.covs),
        "states": sorted(ctx.states),
        "log": decider.log,
        "nontrivial": bool(ctx.nontrivial),
        "trace": sched.trace,
        "msgs": ctx.messages[-30:] if trace else None,
        "histlen": len(ctx.hist),
        "histhash": hashlib.blake2b(repr(ctx.hist).encode(),
                                    digest_size=8).hexdigest(),
        "hist": [repr(h) for h in ctx.hist[-200:]] if trace else None,
        "out": "".join(sink.last)[-1500:] if trace else None,
    }


class Scenario(object):
    """Base class.  gen() draws a JSON-able plan from rng; run() executes it
    on the real code; finish() checks the recorded history."""
    loud = False
    prop = None
    name = None
    weight = 1
    max_steps = 60000
    cpu_limit = 20
    modes = ("fifo", "bias", "uniform", "pct", "lifo")
    components = {"real": [], "stub": []}

    def gen(self, rng, tier):
        raise NotImplementedError

    async def run(self, ctx, plan):
        raise NotImplementedError

    def finish(self, ctx, plan):
        pass

    def on_exception(self, ctx, plan, e):
        extra = ""
        if type(e).__name__ == "UVMFinishError":
            f = [str(m) for m in ctx.messages if "UVM_FATAL" in str(m)]
            extra = " after " + " ".join(f[:1])[:300]
        return ("exception", "%s: %s%s [%s]" % (
            type(e).__name__, str(e)[:300], extra, _short_tb(e)))

    def on_deadlock(self, ctx, plan):
        return ("deadlock", "no event left and the scenario has not finished;"
                " last history: %s" % (ctx.hist[-4:],))

    def on_livelock(self, ctx, plan):
        return ("livelock", "no end after %d task steps, virtual time %d"
                % (ctx.sched.n_steps, ctx.now))


def gen_mode(rng, scn):
    modes = scn.modes
    w = {"fifo": 1, "bias": 3, "uniform": 4, "pct": 3, "lifo": 1}
    m = rng.choices(modes, [w[x] for x in modes])[0]
    p = {}
    if m == "bias":
        p["p"] = rng.choice([0.05, 0.15, 0.4])
    if m == "pct":
        p["depth"] = rng.choice([1, 2, 4])
        p["span"] = rng.choice([50, 400, 2000])
    return m, p
