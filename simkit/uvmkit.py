"""Helpers scenarios use to stand up real UVM testbenches (public API only)."""
from . import core

core.boot()

from uvm import *                                       # noqa: E402,F401,F403
from uvm.base.uvm_coreservice import UVMCoreService     # noqa: E402
from uvm.base.uvm_exceptions import UVMFinishError      # noqa: E402,F401
from uvm.base.uvm_report_server import UVMReportServer  # noqa: E402
from uvm.base.uvm_mailbox import UVMMailbox             # noqa: E402,F401
from uvm.base.uvm_object_globals import *               # noqa: E402,F401,F403
from uvm.base.sv import sv                              # noqa: E402,F401
from uvm.macros import *                                # noqa: E402,F401,F403
import cocotb                                           # noqa: E402,F401


class Cur(object):
    """The scenario instance driving the current (single) run."""
    scn = None
    ctx = None


class SimTest(UVMTest):
    """Root test; every phase hook is forwarded to the scenario."""

    def __init__(self, name="SimTest", parent=None):
        super().__init__(name, parent)

    def build_phase(self, phase):
        super().build_phase(phase)
        f = getattr(Cur.scn, "build", None)
        if f:
            f(self)

    def connect_phase(self, phase):
        super().connect_phase(phase)
        f = getattr(Cur.scn, "connect", None)
        if f:
            f(self)

    async def run_phase(self, phase):
        f = getattr(Cur.scn, "main", None)
        if f:
            phase.raise_objection(self)
            await f(self, phase)
            phase.drop_objection(self)


uvm_component_utils(SimTest)


class UvmScenario(core.Scenario):
    """run_test() on SimTest; subclass gives build/connect/main."""
    needs_scratch = True
    components = {"real": ["uvm (all of src/uvm used by the bench)",
                           "cocotb scheduler bookkeeping, triggers, tasks"],
                  "stub": ["HDL simulator kernel (virtual-time event heap)"]}

    async def run(self, ctx, plan):
        Cur.scn = self
        Cur.ctx = ctx
        self.plan = plan
        await run_test("SimTest")
        self.after(ctx, plan)

    def after(self, ctx, plan):
        pass


class Delays(object):
    """Common delay vocabulary of plans: -2..-1 deltas, 0 none, >0 time."""
    @staticmethod
    def gen(rng, hi=4):
        return rng.choice([0, 0, 0, -1, -2, 1] + [rng.randint(1, hi)] * 2)


def root():
    return UVMCoreService.get().get_root()


def rserver():
    return UVMReportServer.get_server()


def sev_count(sev):
    return rserver().get_severity_count(sev)
