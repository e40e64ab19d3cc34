"""Cooperative scheduler for real threads and fault injector, both driven by the trace hook.

Every line (or every bytecode) executed inside the package under test is a scheduling
point.  Exactly one thread runs at a time; the token moves only at scheduling points,
when a thread blocks on a lock, or when it ends.  Which thread runs next is a choice of
the explorer; switching away from a thread that could continue costs one preemption.
"""
import _thread
import collections
import dis
import sys
import threading

from . import api
from .engine import Skip, Violation

_real_lock = _thread.allocate_lock
_CURRENT = [None]
# CPython 3.12 delivers bytecode events only to sys.settrace() calls made after some frame asked for them
sys._getframe().f_trace_opcodes = True


class _Abort(BaseException):
    pass


class CoopLock:
    """Replacement for threading.Lock / RLock inside controlled threads."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0
        self.real = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = _CURRENT[0]
        me = _thread.get_ident()
        if s is None or me not in s.index:
            return self.real.acquire(blocking, timeout) if s is None and self.owner is None else True
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            s.block(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        s = _CURRENT[0]
        if self.owner is None:
            if self.real.locked():
                self.real.release()
            return
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True


class patched_locks:
    def __enter__(self):
        self.old = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = CoopLock, CoopRLock

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.old


# Instructions that read and write nothing but the frame's own locals and evaluation stack (or build
# new objects out of them).  Switching threads before such an instruction is equivalent to switching
# before the next instruction that is not one, so only the others are scheduling points.
_LOCAL_OPS = frozenset("""CACHE NOP RESUME EXTENDED_ARG POP_TOP PUSH_NULL COPY SWAP KW_NAMES
LOAD_FAST LOAD_FAST_CHECK LOAD_FAST_AND_CLEAR STORE_FAST DELETE_FAST LOAD_CONST LOAD_CLOSURE MAKE_CELL COPY_FREE_VARS
MAKE_FUNCTION BUILD_TUPLE BUILD_LIST BUILD_MAP BUILD_SET BUILD_SLICE BUILD_STRING BUILD_CONST_KEY_MAP IS_OP
JUMP_FORWARD JUMP_BACKWARD JUMP_BACKWARD_NO_INTERRUPT POP_JUMP_IF_TRUE POP_JUMP_IF_FALSE POP_JUMP_IF_NONE POP_JUMP_IF_NOT_NONE
RETURN_VALUE RETURN_CONST RETURN_GENERATOR POP_EXCEPT PUSH_EXC_INFO RERAISE CLEANUP_THROW END_FOR END_SEND GET_LEN""".split())
_VISIBLE = {}


def visible(code):
    """Offsets of the instructions of `code` that are scheduling points."""
    v = _VISIBLE.get(code)
    if v is None:
        v = _VISIBLE[code] = frozenset(i.offset for i in dis.get_instructions(code) if i.opname not in _LOCAL_OPS)
    return v


def _loc(frame, opcodes):
    c = frame.f_code
    return c.co_filename[len(api.PKG):], c.co_firstlineno, c.co_name, frame.f_lasti if opcodes else frame.f_lineno


def record(fn, opcodes, only_visible=True):
    """The locations of the points passed by fn() when it runs alone, in order, and the number of trace events."""
    seq = []
    n = [0]

    def trace(frame, event, arg):
        if event == "call":
            if not frame.f_code.co_filename.startswith(api.PKG):
                return None
            if opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            if only_visible:
                return trace
        elif event != ("opcode" if opcodes else "line"):
            return trace
        n[0] += 1
        if not (only_visible and opcodes and frame.f_lasti not in visible(frame.f_code)):
            seq.append(_loc(frame, opcodes))
        return trace
    sys.settrace(trace)
    try:
        fn()
    finally:
        sys.settrace(None)
    return seq, n[0]


class Plan:
    """Which visits of which locations are points: all of them if there are at most `cap` (over all the
    sequences given), otherwise every location is thinned evenly to the same number of visits, and if one
    visit of each is still too many, every n-th location is kept."""

    def __init__(self, seqs, cap):
        total = [collections.Counter(s) for s in seqs]
        n = sum(map(len, seqs))
        self.full = n <= cap
        self.stride = {}
        self.off = set()
        self.points = n
        if self.full:
            return
        m = max((max(c.values()) for c in total if c), default=1)
        while m > 1 and sum(min(v, m) for c in total for v in c.values()) > cap:
            m -= 1
        top = collections.Counter()
        for c in total:
            top |= c
        self.stride = {loc: -(-v // m) for loc, v in top.items() if v > m}
        left = sum(min(v, m) for c in total for v in c.values())
        if left > cap:
            g = -(-left // max(cap, 1))
            self.off = {loc for i, loc in enumerate(sorted(top)) if i % g}
        self.points = sum(1 for s in seqs for _ in self.indices(s))

    def take(self, loc, visit):
        if self.full:
            return True
        return loc not in self.off and visit % self.stride.get(loc, 1) == 0

    def indices(self, seq):
        """Positions of the sequence that are points."""
        seen = collections.Counter()
        for i, loc in enumerate(seq):
            v = seen[loc]
            seen[loc] += 1
            if self.take(loc, v):
                yield i


class Scheduler:
    def __init__(self, ch, bound, opcodes=False, plan=None):
        self.ch, self.left, self.opcodes = ch, bound, opcodes
        self.plan = plan if plan is not None and not plan.full else None
        self.seen = {}
        self.index = {}
        self.sem = []
        self.done = []
        self.blocked = {}
        self.results = []
        self.error = None
        self.steps = 0
        self.switches = 0
        self.main = _real_lock()
        self.main.acquire()

    # -- trace hook
    def _trace(self, frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(api.PKG):
            return None
        if self.error is not None:
            raise _Abort()
        if self.left <= 0:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self._local_op
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" and not self.point(frame):
            return None
        return self._local

    def _local_op(self, frame, event, arg):
        if event == "opcode" and frame.f_lasti in visible(frame.f_code) and not self.point(frame):
            return None
        return self._local_op

    def point(self, frame):
        """Returns False once no further preemption is possible (tracing then stops)."""
        if self.error is not None:
            raise _Abort()
        self.steps += 1
        if self.left <= 0:
            return False
        me = self.index[_thread.get_ident()]
        if self.plan is not None:
            loc = _loc(frame, self.opcodes)
            n = self.seen.get((me, loc), 0)
            self.seen[me, loc] = n + 1
            if not self.plan.take(loc, n):
                return True
        others = [i for i in range(len(self.sem)) if i != me and not self.done[i] and i not in self.blocked]
        if not others:
            return True
        try:
            c = self.ch.choose(len(others) + 1)
        except BaseException as e:
            self.error = e
            raise _Abort() from None
        if c:
            self.left -= 1
            self._switch(me, others[c - 1])
        return True

    def block(self, lock):
        me = self.index[_thread.get_ident()]
        self.blocked[me] = lock
        try:
            nxt = self._next(me)
            if nxt is None:
                self.error = Violation("deadlock: every thread waits for a lock")
                raise _Abort()
            self._switch(me, nxt)
        finally:
            self.blocked.pop(me, None)
        if self.error is not None:
            raise _Abort()

    def _next(self, me):
        for i, lock in list(self.blocked.items()):
            if lock.owner is None:
                del self.blocked[i]
        run = [i for i in range(len(self.sem)) if i != me and not self.done[i] and i not in self.blocked]
        if not run:
            return None
        if len(run) == 1 or self.error is not None:
            return run[0]
        try:
            return run[self.ch.choose(len(run))]
        except BaseException as e:
            self.error = e
            return run[0]

    def _switch(self, me, to):
        self.switches += 1
        self.sem[to].release()
        self.sem[me].acquire()
        if self.error is not None:
            raise _Abort()

    def _body(self, i, fn):
        self.sem[i].acquire()
        try:
            if self.error is None:
                sys.settrace(self._trace)
                try:
                    self.results[i] = ("returned", fn())
                except _Abort:
                    pass
                except BaseException as e:
                    self.results[i] = ("raised", e)
                finally:
                    sys.settrace(None)
        finally:
            self.done[i] = True
            nxt = self._next(i)
            if nxt is not None:
                self.sem[nxt].release()
            else:
                if not all(self.done) and self.error is None:
                    self.error = Violation("deadlock: the remaining threads wait for a lock")
                if not all(self.done):
                    for j, d in enumerate(self.done):
                        if not d:
                            self.blocked.pop(j, None)
                            self.sem[j].release()
                            return
                self.main.release()

    def run(self, fns):
        n = len(fns)
        first = self.ch.choose(n)
        self.sem = [_real_lock() for _ in range(n)]
        for s in self.sem:
            s.acquire()
        self.done = [False] * n
        self.results = [None] * n
        ths = []
        started = _real_lock()
        started.acquire()
        for i, fn in enumerate(fns):
            def go(i=i, fn=fn):
                self.index[_thread.get_ident()] = i
                started.release()
                self._body(i, fn)
            _thread.start_new_thread(go, ())
            started.acquire()
        _CURRENT[0] = self
        try:
            self.sem[first].release()
            self.main.acquire()
        finally:
            _CURRENT[0] = None
        if self.error is not None:
            raise self.error
        return self.results


class Injector:
    """Raises `exc` at the k-th event (call or line / bytecode) inside the package; counts when k is None."""

    def __init__(self, k, exc, opcodes=False):
        self.k, self.exc, self.opcodes = k, exc, opcodes
        self.n = 0
        self.where = None
        self.discarded = False

    def _hit(self, frame):
        n = self.n
        self.n = n + 1
        if n == self.k:
            self.where = "%s:%d" % (frame.f_code.co_filename[len(api.PKG) + 1:], frame.f_lineno)
            raise self.exc

    def _trace(self, frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(api.PKG):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        self._hit(frame)
        return self._op if self.opcodes else self._line

    def _line(self, frame, event, arg):
        if event == "line":
            self._hit(frame)
        return self._line

    def _op(self, frame, event, arg):
        if event == "opcode":
            self._hit(frame)
        return self._op

    def _unraisable(self, u):
        # raised while an abandoned generator was being finalised: CPython discards such an
        # exception whatever the code does, so it never counts as swallowed by the library
        if u.exc_value is self.exc:
            self.discarded = True

    def __call__(self, fn):
        hook = sys.unraisablehook
        sys.unraisablehook = self._unraisable
        sys.settrace(self._trace)
        try:
            return fn()
        finally:
            sys.settrace(None)
            sys.unraisablehook = hook
