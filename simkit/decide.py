"""Every nondeterministic choice of a run goes through one Decider.

Recording mode: a policy driven by a seeded PRNG picks; the picks are logged.
Replay mode: the logged picks are played back; once they run out (or do not
fit), pick 0 -- the stock order -- is taken, so any prefix or any edited list
is again a legal, exactly repeatable execution.
"""
import hashlib
import random


class Decider(object):
    def __init__(self, seed=None, replay=None, mode="fifo", params=None):
        self.replay = replay
        self.pos = 0
        self.log = []
        self.mode = mode
        self.params = params or {}
        self.rng = random.Random(seed)
        self.prio = {}
        self.hash = hashlib.blake2b(digest_size=8)
        self.n_nontrivial = 0
        self.steps = 0
        self.change_at = None
        if mode == "pct":
            d = self.params.get("depth", 3)
            span = self.params.get("span", 400)
            self.change_at = set(self.rng.randrange(span) for _ in range(d))

    def choose(self, n, tag, labels=None):
        """Index in range(n).  0 is the stock (FIFO) choice."""
        if n <= 1:
            return 0
        self.n_nontrivial += 1
        if self.replay is not None:
            if self.pos < len(self.replay):
                i = self.replay[self.pos]
                self.pos += 1
                if i >= n:
                    i = 0
            else:
                i = 0
        else:
            i = self._pick(n, tag, labels)
        self.log.append(i)
        return i

    def _pick(self, n, tag, labels):
        m = self.mode
        if tag == "fault":
            return self.rng.randrange(n)
        if m == "fifo":
            return 0
        if m == "bias":
            if self.rng.random() < self.params.get("p", 0.15):
                return self.rng.randrange(n)
            return 0
        if m == "lifo":
            return n - 1 if self.rng.random() < 0.8 else self.rng.randrange(n)
        if m == "pct" and labels is not None:
            best = None
            for i, lab in enumerate(labels):
                p = self.prio.get(lab)
                if p is None:
                    p = self.prio[lab] = self.rng.random() + 1.0
                if best is None or p > best[0]:
                    best = (p, i)
            if self.n_nontrivial in self.change_at:
                self.prio[labels[best[1]]] = self.rng.random() * 0.1
            return best[1]
        return self.rng.randrange(n)

    def note(self, s):
        """Feed the interleaving fingerprint."""
        self.hash.update(s.encode())
        self.hash.update(b"|")

    def fingerprint(self):
        return self.hash.hexdigest()
