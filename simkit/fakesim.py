"""Stub for the one component that is not run for real: the HDL simulator kernel.

It stands in for the C module ``cocotb.simulator``: an event heap over virtual
time with the delta phases cocotb knows about (value callbacks, ReadWrite,
ReadOnly, NextTimeStep).  Nothing here reads a clock.  When several timer
callbacks are due at the same virtual time, which comes first is a decision
of the simulation.
"""
import heapq
import sys
import types


class _Handle(object):
    __slots__ = ("cb", "trigger", "live", "when", "seq")

    def __init__(self, cb, trigger, when, seq):
        self.cb = cb
        self.trigger = trigger
        self.live = True
        self.when = when
        self.seq = seq

    def deregister(self):
        self.live = False

    def __lt__(self, other):
        return (self.when, self.seq) < (other.when, other.seq)


class Kernel(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.now = 0
        self.seq = 0
        self.heap = []
        self.rw = []
        self.ro = []
        self.nts = []
        self.stopped = False
        self.decider = None
        self.timers_fired = 0

    def _h(self, cb, trigger, when):
        self.seq += 1
        return _Handle(cb, trigger, when, self.seq)

    # registration -------------------------------------------------------
    def register_timed_callback(self, steps, cb, trigger):
        h = self._h(cb, trigger, self.now + int(steps))
        heapq.heappush(self.heap, h)
        return h

    def register_rwsynch_callback(self, cb, trigger):
        h = self._h(cb, trigger, self.now)
        self.rw.append(h)
        return h

    def register_readonly_callback(self, cb, trigger):
        h = self._h(cb, trigger, self.now)
        self.ro.append(h)
        return h

    def register_nextstep_callback(self, cb, trigger):
        h = self._h(cb, trigger, self.now)
        self.nts.append(h)
        return h

    def register_value_change_callback(self, handle, cb, edge, trigger):
        raise NotImplementedError("the stub kernel has no HDL signals")

    # run ----------------------------------------------------------------
    def _fire(self, h):
        if h.live:
            h.live = False
            self.timers_fired += 1
            h.cb(h.trigger)

    def _drain(self, name):
        lst = getattr(self, name)
        if not lst:
            return False
        setattr(self, name, [])
        for h in lst:
            self._fire(h)
        return True

    def run(self, done):
        """Advance virtual time until done() or no event is left."""
        while not done():
            # end-of-timestep phases of the current time
            if self._drain("rw"):
                continue
            if self._drain("ro"):
                continue
            # earliest live timer(s)
            batch = []
            heap = self.heap
            while heap:
                if not heap[0].live:
                    heapq.heappop(heap)
                    continue
                if batch and heap[0].when != batch[0].when:
                    break
                batch.append(heapq.heappop(heap))
            if not batch:
                if self.nts:
                    self.now += 1
                    self._drain("nts")
                    continue
                return False
            if batch[0].when > self.now:
                self.now = batch[0].when
                if self.nts:
                    for h in batch:
                        heapq.heappush(heap, h)
                    self._drain("nts")
                    continue
            # same-time callbacks: order is a decision
            if len(batch) > 1 and self.decider is not None:
                i = self.decider.choose(len(batch), "timer")
            else:
                i = 0
            h = batch.pop(i)
            for o in batch:
                heapq.heappush(heap, o)
            self._fire(h)
        return True


KERNEL = Kernel()


class _SimModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name.isupper():
            return "SIMCONST_" + name
        raise AttributeError(name)


def install():
    """Put the stub in place of cocotb.simulator (before cocotb is imported)."""
    m = _SimModule("cocotb.simulator")
    m.is_running = lambda: True
    m.get_precision = lambda: -12
    m.get_sim_time = lambda: (KERNEL.now >> 32, KERNEL.now & 0xFFFFFFFF)
    m.register_timed_callback = \
        lambda t, cb, trig: KERNEL.register_timed_callback(t, cb, trig)
    m.register_rwsynch_callback = \
        lambda cb, trig: KERNEL.register_rwsynch_callback(cb, trig)
    m.register_readonly_callback = \
        lambda cb, trig: KERNEL.register_readonly_callback(cb, trig)
    m.register_nextstep_callback = \
        lambda cb, trig: KERNEL.register_nextstep_callback(cb, trig)
    m.register_value_change_callback = \
        lambda h, cb, e, trig: KERNEL.register_value_change_callback(
            h, cb, e, trig)
    m.get_simulator_product = lambda: "simkit"
    m.get_simulator_version = lambda: "1.0"
    m.get_root_handle = lambda name=None: None

    def stop_simulator():
        KERNEL.stopped = True
    m.stop_simulator = stop_simulator
    m.log_level = lambda *a, **k: None
    m.initialize_logger = lambda *a, **k: None
    sys.modules["cocotb.simulator"] = m
    import cocotb
    cocotb.simulator = m
    cocotb.plusargs = {}
    cocotb.argv = ["simkit"]
    cocotb.SIM_NAME = "simkit"
    cocotb.SIM_VERSION = "1.0"
    cocotb.RANDOM_SEED = 0
    return m
