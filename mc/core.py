"""Stateless model checker: enumerates every choice sequence of a harness.

A harness is a function run(cfg, ctx).  Everything it does not fix itself
(random draws, costs, completion orders, faults, operations) it asks the
context for through ctx.choose(n).  The explorer re-runs the harness from
scratch on the real code for every choice sequence, depth first, up to an
optional bound on the number of non-default choices ("deviations").
"""
import hashlib
import os
import signal
import sys
import time
import traceback


class Violation(Exception):
    """The property does not hold.  `key` identifies the failing input."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key


class ReplayMismatch(Exception):
    """The code under test did not repeat a recorded prefix of choices."""


class Hang(Exception):
    pass


class SkipExecution(Exception):
    """The harness prunes this choice sequence (not an error)."""


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if hasattr(p, "tobytes"):
            h.update(str(p.dtype).encode() + str(p.shape).encode())
            h.update(p.tobytes())
        else:
            h.update(repr(p).encode())
        h.update(b"|")
    return h.digest()


class Stats:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.executions = 0
        self.validated = 0
        self.pruned = 0
        self.choice_points = 0
        self.capped = []
        self.samples = []
        self.outcomes = set()
        self.known = {}

    def merge(self, d):
        self.states |= d.states
        self.outcomes |= d.outcomes
        self.transitions += d.transitions
        self.executions += d.executions
        self.validated += d.validated
        self.pruned += d.pruned
        self.choice_points += d.choice_points
        self.capped += d.capped
        for k, v in d.known.items():
            self.known.setdefault(k, v)
        if len(self.samples) < 6:
            self.samples += d.samples[: 6 - len(self.samples)]


class Ctx:
    def __init__(self, prefix, labels, stats, bound):
        self.prefix = prefix
        self.labels = labels
        self.trace = []          # (choice, n, label)
        self.stats = stats
        self.bound = bound
        self.dev = 0
        self.acc = None          # per-configuration accumulator
        self.replaying = False

    def choose(self, n, label="", free=False):
        """A choice in range(n).  free=True does not count as a deviation."""
        i = len(self.trace)
        if n <= 0:
            raise ValueError("choose(0) at " + label)
        c = 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if self.labels is not None and i < len(self.labels):
                if self.labels[i] != (n, label):
                    raise ReplayMismatch(
                        "choice %d was %r and is now %r" % (i, self.labels[i], (n, label)))
            if c >= n:
                raise ReplayMismatch("choice %d out of range" % i)
        self.trace.append((c, n, label, free))
        if c and not free:
            self.dev += 1
        return c

    def pick(self, seq, label="", free=False):
        return seq[self.choose(len(seq), label, free)]

    def state(self, *parts):
        """Record a visited state (hash of its canonical form)."""
        self.stats.states.add(digest(*parts))

    def step(self, k=1):
        self.stats.transitions += k

    def validated(self, k=1):
        self.stats.validated += k

    def outcome(self, *parts):
        self.stats.outcomes.add(digest(*parts))

    def sample(self, text):
        if len(self.stats.samples) < 2:
            self.stats.samples.append(str(text() if callable(text) else text)[:1500])

    def choices(self):
        return [t[0] for t in self.trace]


def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class time_guard:
    """Raises Hang in the main thread when the block runs too long."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        cpu, wall, grace = time.process_time(), time.monotonic(), 5 * self.seconds

        def on_alarm(*_):
            # a busy machine is no hang: wait until the time was really used, or for much longer
            left = self.seconds - (time.process_time() - cpu)
            if left > 0.02 * self.seconds and time.monotonic() - wall < grace:
                signal.setitimer(signal.ITIMER_REAL, max(left, 0.1 * self.seconds))
                return
            raise Hang("no answer within %g s" % self.seconds)
        self.old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def explore(run, cfg, stats, bound=None, max_exec=None, deadline=None,
            guard=60.0, acc=None, on_violation=None):
    """Enumerate all executions of run(cfg, ctx).  Returns (violation, choices)."""
    prefix, labels = [], None
    n = 0
    while True:
        ctx = Ctx(prefix, labels, stats, bound)
        ctx.acc = acc
        try:
            with time_guard(guard):
                run(cfg, ctx)
        except SkipExecution:
            stats.pruned += 1
        except Violation as v:
            if on_violation is None or not on_violation(v):
                return v, ctx.choices()
        except Hang as h:
            v = Violation("hang: %s" % h, "hang")
            if on_violation is None or not on_violation(v):
                return v, ctx.choices()
        except ReplayMismatch as m:
            v = Violation("uncontrolled nondeterminism: %s" % m, "nondeterminism")
            return v, ctx.choices()
        except Exception as e:  # the code under test failed where it must not
            v = Violation("unexpected %s: %s\n%s" % (
                type(e).__name__, e, "".join(traceback.format_exc()[-1500:])),
                "exception:" + type(e).__name__)
            if on_violation is None or not on_violation(v):
                return v, ctx.choices()
        n += 1
        stats.executions += 1
        stats.choice_points += len(ctx.trace)
        # next choice sequence in depth-first order
        t = ctx.trace
        i = len(t) - 1
        devs = [0] * (len(t) + 1)
        for j, (c, _, _, free) in enumerate(t):
            devs[j + 1] = devs[j] + (1 if c and not free else 0)
        while i >= 0:
            c, m, _, free = t[i]
            if c + 1 < m and (free or bound is None or devs[i] + 1 <= bound):
                break
            i -= 1
        if i < 0:
            return None, None
        prefix = [x[0] for x in t[:i]] + [t[i][0] + 1]
        labels = [(x[1], x[2]) for x in t[: i + 1]]
        if max_exec is not None and n >= max_exec:
            stats.capped.append("%s: %d executions" % (cfg.get("name", "?") if isinstance(cfg, dict) else cfg, n))
            return None, None
        if deadline is not None and time.time() > deadline:
            stats.capped.append("%s: deadline after %d executions" % (cfg.get("name", "?") if isinstance(cfg, dict) else cfg, n))
            return None, None


def dev_product(default, alternatives, bound, fixed=()):
    """All configurations differing from `default` in at most `bound` keys."""
    import itertools
    keys = list(alternatives)
    for r in range(bound + 1):
        for ks in itertools.combinations(keys, r):
            for vals in itertools.product(*[alternatives[k] for k in ks]):
                cfg = dict(default)
                cfg.update(zip(ks, vals))
                yield cfg
