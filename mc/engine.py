"""Exhaustive explorers: a stateless choice-tree explorer and an explicit-state BFS.

A *harness* is a function ``h(ch)`` that closes the system: it asks ``ch`` for
every nondeterministic choice (configuration, input shape, operation, fault
position ...), runs the real code, and raises ``Violation`` when the observed
behaviour disagrees with the reference.  The explorer re-executes the harness
for every complete choice sequence (depth first, simplest choice first), so a
finished run covers the bounded space completely.  Nothing is sampled.
"""
import collections
import json
import pickle
import multiprocessing as mp
import os
import resource
import signal
import time
import traceback

NPROC = int(os.environ.get("MC_NPROC", "8"))
HANG_CPU_SECONDS = 10
HANG_IDLE_SECONDS = 40
LIMIT = float(os.environ.get("MC_LIMIT", "850" if os.environ.get("VERIF_TIER") == "quick" else "86400"))


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, msg, case=None, **more):
        super().__init__(msg)
        self.msg = msg
        self.case = case
        self.more = more


LAST = [None]  # the input of the execution in progress, for reports


class Skip(Exception):
    """This choice sequence does not denote an execution (redundant or empty)."""


class _Cut(BaseException):
    pass


class Hang(BaseException):
    pass


class Diverged(Exception):
    pass


class Ch:
    """Choice provider for one execution."""

    __slots__ = ("path", "ns", "pos", "limit", "new")

    def __init__(self, path=(), ns=(), limit=None):
        self.path = list(path)
        self.ns = list(ns)
        self.pos = 0
        self.limit = limit
        self.new = 0

    def choose(self, n):
        if n <= 1:
            if n <= 0:
                raise Skip()
            return 0
        pos = self.pos
        if pos < len(self.path):
            if self.ns[pos] is not None and self.ns[pos] != n:
                raise Diverged("replay diverged at choice %d: %r alternatives, had %r" % (pos, n, self.ns[pos]))
            self.ns[pos] = n
            if self.path[pos] >= n:
                raise Diverged("choice %d out of range" % pos)
        else:
            if self.limit is not None and pos >= self.limit:
                raise _Cut()
            self.path.append(0)
            self.ns.append(n)
            self.new += 1
        self.pos = pos + 1
        return self.path[pos]

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def upto(self, hi, lo=0):
        """An integer lo..hi inclusive."""
        return lo + self.choose(hi - lo + 1)

    def flag(self):
        return self.choose(2) == 1


class Stats:
    def __init__(self):
        self.executions = 0
        self.points = 0
        self.branches = 0
        self.skipped = 0
        self.outcomes = collections.Counter()
        self.first = None
        self.last = None
        self.sample = None
        self.cpu = 0.0
        self.extra = collections.Counter()

    def add(self, o):
        self.executions += o.executions
        self.points += o.points
        self.branches += o.branches
        self.skipped += o.skipped
        self.outcomes.update(o.outcomes)
        self.extra.update(o.extra)
        if self.first is None:
            self.first = o.first
        if o.last is not None:
            self.last = o.last
        self.cpu += o.cpu
        if o.sample is not None:
            self.sample = o.sample


_beat = [0, -1]


def _tick(signum, frame):
    if _beat[0] == _beat[1]:
        raise Hang()
    _beat[1] = _beat[0]


_idle = [-1, 0.0, 0.0]
_waiting = [0]


def _doze(signum, frame):
    """No step for HANG_IDLE_SECONDS and no CPU time used either: the call is blocked for ever."""
    cpu, now = time.process_time(), time.monotonic()
    if _waiting[0] or _idle[0] != _beat[0] or cpu - _idle[1] > 0.2:
        _idle[:] = [_beat[0], cpu, now]
    elif now - _idle[2] > HANG_IDLE_SECONDS:
        raise Hang()


class waiting:
    """The process waits for another one that it started: being idle is all right."""

    def __enter__(self):
        _waiting[0] += 1

    def __exit__(self, *a):
        _waiting[0] -= 1
        _beat[0] += 1


def watch():
    """Turn calls that never end into Hang, in this process."""
    signal.signal(signal.SIGVTALRM, _tick)
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU_SECONDS, HANG_CPU_SECONDS)
    _waiting[0] = 0
    _idle[0] = -1
    signal.signal(signal.SIGALRM, _doze)
    signal.setitimer(signal.ITIMER_REAL, HANG_IDLE_SECONDS / 4, HANG_IDLE_SECONDS / 4)


def working(fn):
    """A worker without work may be idle; watch only what fn does."""
    def g(*a):
        _waiting[0] = 0
        _beat[0] += 1
        try:
            return fn(*a)
        finally:
            _waiting[0] = 1
    g.__name__ = g.__qualname__ = fn.__name__
    return g


def _describe(exc):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-1800:]


def run_one(harness, ch):
    """Run one execution. Returns (outcome, None) or (None, violation dict)."""
    _beat[0] += 1
    LAST[0] = None
    try:
        out = harness.fn(ch)
        return out, None
    except (Skip, Diverged, _Cut):
        raise
    except Violation as v:
        d = {"msg": v.msg, "case": v.case}
        d.update(v.more)
    except Hang:
        d = {"msg": "the call did not return (%d s of CPU time, or %d s without using any)" % (HANG_CPU_SECONDS, HANG_IDLE_SECONDS), "case": None}
    except BaseException as e:  # noqa: an unexpected exception means the code under test misbehaved
        d = {"msg": "unexpected %s: %s" % (type(e).__name__, e), "case": {"traceback": _describe(e)}}
    d["input"] = LAST[0]
    return None, d


def replay(harness, choices):
    """Run one recorded execution twice; both runs must agree."""
    def once():
        ch = Ch(choices, [None] * len(choices))
        return run_one(harness, ch)[1]
    a, b = once(), once()
    if (a is None) != (b is None):
        raise Diverged("the recorded execution is not reproducible")
    return a


def safe_repr(x):
    try:
        return repr(x)
    except Exception as e:
        return "<no repr: %s>" % e


def describe_input(harness, choices):
    LAST[0] = None
    try:
        harness.fn(Ch(choices, [None] * len(choices)))
    except Exception:
        pass
    r = safe_repr(LAST[0])
    return r if len(r) < 1500 else r[:1500] + "..."


def _advance(ch, base):
    path, ns = ch.path, ch.ns
    while len(path) > base and path[-1] + 1 >= ns[-1]:
        path.pop()
        ns.pop()
    if len(path) <= base:
        return False
    path[-1] += 1
    return True


def explore_subtree(harness, prefix, ns):
    """Explore every execution whose choices start with prefix."""
    st = Stats()
    base = len(prefix)
    ch = Ch(prefix, ns)
    while True:
        ch.pos = 0
        ch.new = 0
        try:
            out, viol = run_one(harness, ch)
        except Skip:
            st.skipped += 1
            out = viol = None
        else:
            if viol is not None:
                viol["harness"] = harness.name
                viol["choices"] = list(ch.path[: ch.pos])
                return st, viol
            st.executions += 1
            st.outcomes[out if isinstance(out, str) else "ok"] += 1
            if st.executions == 1:
                st.first = list(ch.path)
            st.last = ch.path[:]
        if ch.pos < len(ch.path):
            raise Diverged("execution made %d choices, %d were prescribed" % (ch.pos, len(ch.path)))
        st.points += ch.new
        st.branches += ch.new
        if not _advance(ch, base):
            break
        st.branches += 1
    return st, None


def plan(harness, want=64, maxdepth=6):
    """Split the choice tree into subtrees: list of (prefix, ns)."""
    best = [((), ())]
    st = Stats()
    for depth in range(1, maxdepth + 1):
        leaves, pts, brs, deeper = [], 0, 0, False
        ch = Ch(limit=depth)
        while True:
            ch.pos = 0
            ch.new = 0
            _beat[0] += 1
            try:
                harness.fn(ch)
            except _Cut:
                deeper = True
            except Hang:  # let a worker run into it again and report it
                return [(tuple(ch.path[: ch.pos]), tuple(ch.ns[: ch.pos]))], st
            except BaseException:  # complete execution: rerun (and judged) by the worker
                pass
            leaves.append((tuple(ch.path), tuple(ch.ns)))
            pts += ch.new
            brs += ch.new
            if not _advance(ch, 0):
                break
            brs += 1
        best = leaves
        st.points, st.branches = pts, brs
        if len(best) >= want or not deeper:
            break
    return best, st


def plan_spine(harness, base=(), base_ns=()):
    """Split by the position of the first non-zero choice: few executions, suits deep narrow trees."""
    st = Stats()
    ch = Ch(base, base_ns)
    _beat[0] += 1
    try:
        harness.fn(ch)
    except Hang:
        return [(tuple(ch.path[: ch.pos]), tuple(ch.ns[: ch.pos]))], st
    except BaseException:  # rerun and judged by a worker
        pass
    path, ns = ch.path[: ch.pos], ch.ns[: ch.pos]
    leaves = [(tuple(path), tuple(ns))]
    st.points = len(ns) - len(base)
    st.branches = sum(ns[len(base):])
    for i in range(len(base), len(ns)):
        for c in range(1, ns[i]):
            pre = tuple(path[:i]) + (c,)
            if i < 2:  # the first choices (who starts) split the tree in big halves
                more, mst = plan_spine(harness, pre, tuple(ns[: i + 1]))
                leaves += more
                st.points += mst.points
                st.branches += mst.branches
            else:
                leaves.append((pre, tuple(ns[: i + 1])))
    return leaves, st


_H = None


class Harness:
    """A choice tree: fn(ch) runs one execution and returns an outcome label."""

    kind = "tree"

    def __init__(self, name, fn, bound, split=96, depth=6, spine=False, describe=True, flat=0):
        self.describe = describe
        self.spine = spine
        self.name = name
        self.fn = fn
        self.bound = bound
        self.split = split
        self.depth = depth
        self.flat = flat  # the first choice is known to have this many alternatives: nothing has to be run to split it


class Bfs:
    """Explicit-state search to a fixpoint (or a depth).

    initial: list of states; events(state): list of events; step(state, event): runs the real code on a
    copy of the state and returns (next state, label) or raises Violation; canon(state): hashable key that
    holds everything the future depends on.
    """

    kind = "bfs"

    def __init__(self, name, initial, events, step, canon, bound, max_depth=None):
        self.name, self.initial, self.events, self.step, self.canon = name, initial, events, step, canon
        self.bound, self.max_depth = bound, max_depth


def _run_bfs(h):
    st = Stats()
    seen = {}
    frontier = []
    for s in h.initial():
        k = h.canon(s)
        if k not in seen:
            seen[k] = None
            frontier.append((s, k))
    depth = 0
    deepest = None
    while frontier and (h.max_depth is None or depth < h.max_depth):
        nxt = []
        for s, k in frontier:
            for ev in h.events(s):
                _beat[0] += 1
                try:
                    ns, label = h.step(s, ev)
                except Exception as e:
                    if isinstance(e, Violation):
                        v = {"msg": e.msg, "case": e.case}
                    else:
                        v = {"msg": "unexpected %s: %s" % (type(e).__name__, e), "case": {"traceback": _describe(e)}}
                    v.update(harness=h.name, choices=None, input=("history", _history(seen, k) + [ev]))
                    return st, v
                st.branches += 1
                st.executions += 1
                st.outcomes[label] += 1
                nk = h.canon(ns)
                if nk not in seen:
                    seen[nk] = (k, ev)
                    nxt.append((ns, nk))
                    deepest = nk
        frontier = nxt
        if nxt:
            depth += 1
    st.points = len(seen)
    st.extra["max_depth"] = depth
    st.extra["fixpoint"] = 0 if frontier else 1
    if deepest is not None:
        st.sample = repr(_history(seen, deepest))
    return st, None


def _history(seen, k):
    h = []
    while seen.get(k) is not None:
        k, ev = seen[k]
        h.append(ev)
    return h[::-1]


def _init_worker():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    watch()
    _waiting[0] = 1


@working
def _plan_job(hi):
    h = _H[hi]
    if h.kind == "bfs":
        return [((), ())], Stats()
    if h.flat:
        return [((i,), (h.flat,)) for i in range(h.flat)], Stats()
    return plan_spine(h) if h.spine else plan(h, h.split, h.depth)


def _work(job):
    hi, idx, prefix, ns = job
    h = _H[hi]
    t0 = time.process_time()
    if h.kind == "bfs":
        st, viol = _run_bfs(h)
    else:
        st, viol = explore_subtree(h, prefix, ns)
    st.cpu = time.process_time() - t0
    if viol is not None:
        viol = json.loads(json.dumps(viol, default=safe_repr)) if not _picklable(viol) else viol
    return hi, idx, st, viol


@working
def _work_many(jobs):
    out = []
    for j in jobs:
        out.append(_work(j))
        if out[-1][3] is not None:
            break
    return out


def _picklable(x):
    try:
        pickle.dumps(x)
        return True
    except Exception:
        return False


def explore(harnesses):
    """Explore all harnesses in parallel. Returns ({name: Stats}, violations)."""
    global _H
    _H = harnesses
    assert len(set(h.name for h in harnesses)) == len(harnesses)
    res = {h.name: Stats() for h in harnesses}
    viols = []
    jobs = []
    deadline = time.time() + LIMIT
    with mp.get_context("fork").Pool(NPROC, initializer=_init_worker) as pool:
        pids = {p.pid for p in pool._pool}

        def results(it):
            while True:
                try:
                    yield it.next(5)
                except StopIteration:
                    return
                except mp.TimeoutError:
                    if {p.pid for p in pool._pool} != pids:
                        raise RuntimeError("a worker process died") from None
                    if time.time() > deadline:
                        raise RuntimeError("out of time") from None

        for hi, (leaves, pst) in enumerate(results(pool.imap(_plan_job, range(len(harnesses)), 1))):
            res[harnesses[hi].name].points += pst.points
            res[harnesses[hi].name].branches += pst.branches
            jobs += [(hi, i, p, n) for i, (p, n) in enumerate(leaves)]
        n = 1 if len(jobs) < 20000 else 16
        stats = []
        for done in results(pool.imap_unordered(_work_many, [jobs[i:i + n] for i in range(0, len(jobs), n)], 1)):
            for hi, idx, st, viol in done:
                stats.append((hi, idx, st))
                if viol is not None:
                    viols.append(viol)
            if viols:
                pool.terminate()
                break
        for hi, idx, st in sorted(stats, key=lambda x: x[:2]):
            res[harnesses[hi].name].add(st)
    return res, viols
