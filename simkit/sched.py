"""cocotb's own scheduler with its ordering choices put behind the Decider.

Only the event loop -- which of the runnable tasks advances next -- is
replaced; priming, waking, task bookkeeping and error propagation are the
real cocotb code.  With the Decider always answering 0 the order is the one
stock cocotb produces.  cocotb documents that implementors should not depend
on the scheduling order, so every other order is a legal execution as well.
"""
import cocotb
from cocotb.scheduler import Scheduler
from cocotb.triggers import GPITrigger


class StepLimit(BaseException):
    pass


class PerturbScheduler(Scheduler):
    def __init__(self, handle_result, decider, max_steps=200000):
        super().__init__(handle_result)
        self.decider = decider
        self.max_steps = max_steps
        self.n_steps = 0
        self._labels = {}
        self._counts = {}
        self.trace = None
        self.kernel = None

    # -- task names that do not depend on addresses ---------------------
    def label(self, task):
        k = id(task)
        ent = self._labels.get(k)
        if ent is None or ent[0] is not task:
            q = getattr(task._coro, "__qualname__", "?")
            n = self._counts.get(q, 0)
            self._counts[q] = n + 1
            ent = (task, "%s#%d" % (q, n))
            self._labels[k] = ent
        return ent[1]

    def _run_one(self, task, trigger):
        self.n_steps += 1
        if self.n_steps > self.max_steps:
            raise StepLimit()
        lab = self.label(task)
        tn = type(trigger).__name__ if trigger is not None else "-"
        d = self.decider
        d.note(lab)
        d.note(tn)
        if self.trace is not None:
            self.trace.append("%d %s <- %s" % (self.kernel.now, lab, tn))
        if trigger is None:
            self._schedule(task)
        else:
            self._schedule(task, trigger=trigger)

    def _event_loop(self, trigger):
        if self._mode == Scheduler._MODE_TERM:
            return
        if trigger is self._read_only:
            self._mode = Scheduler._MODE_READONLY
        elif isinstance(trigger, GPITrigger):
            self._mode = Scheduler._MODE_NORMAL

        self._pending_triggers.append(trigger)
        cur = None
        ready = []          # (task, trigger) woken, not yet advanced
        choose = self.decider.choose
        label = self.label
        while True:
            # a fired trigger makes its waiters runnable; which trigger first
            # is itself a choice, but waking is not running, so it is FIFO and
            # the freedom is in picking among the woken tasks below.
            while self._pending_triggers:
                trg = self._pending_triggers.pop(0)
                try:
                    tasks = self._trigger2coros.pop(trg)
                except KeyError:
                    continue
                trg.unprime()
                for t in tasks:
                    ready.append((t, trg))
            cands = []
            for ent in ready:
                if ent[0]._outcome is None:
                    cands.append(ent)
            ready = cands
            pend = self._pending_coros
            n = len(ready) + len(pend)
            if n == 0:
                if self._pending_events:
                    self._pending_events.pop(0).set()
                    continue
                break
            # candidate order: stock order is the woken tasks of the trigger
            # being served, then queued new tasks, then later triggers
            k = 0
            while k < len(ready) and ready[k][1] is cur:
                k += 1
            if k == 0 and not pend:
                cur = ready[0][1]
                while k < len(ready) and ready[k][1] is cur:
                    k += 1
            if n > 1:
                order = [("r", i) for i in range(k)] + \
                        [("p", i) for i in range(len(pend))] + \
                        [("r", i) for i in range(k, len(ready))]
                if self.decider.mode == "pct" and self.decider.replay is None:
                    labs = [label(ready[i][0]) if w == "r" else label(pend[i])
                            for w, i in order]
                else:
                    labs = None
                w, i = order[choose(n, "task", labs)]
            elif ready:
                w, i = "r", 0
            else:
                w, i = "p", 0
            if w == "r":
                task, trg = ready.pop(i)
            else:
                task, trg = pend.pop(i), None
            self._run_one(task, trg)
            del task, trg
            if self._terminate:
                break       # the test is over: nothing else may run
        self._check_termination()
