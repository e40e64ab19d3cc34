"""C13: concurrent calls under every interleaving up to a preemption bound."""
import os
import pickle

from .. import engine, ref, sched
from ..api import fresh
from ..engine import LAST, Ch, Harness, Violation
from ..sched import Scheduler
from ..spaces import F
from .history import DOC1, DOC2, RAW1, RAW2, _s1, _s2
from .printing import Out

PPDOC1 = {"t": "0200", "2": "1" * 50, "66": {"len": b"02", "data": b"\xab\x12" * 9}}
PPDOC2 = {"h": "HD", "t": "0210", "3": "'\"" * 12, "129": "x" * 40}
DEC3 = {"t": "0200", "3": "ok"}
RAW3 = ref.encode(dict(DEC3), _s1())[0]


class World:
    """Fresh library, fresh shared specifications; each thread has its own dictionary and stream."""

    def __init__(self):
        with sched.patched_locks():
            self.a = fresh()
        self.s1, self.s2 = _s1(), _s2()
        self.raw1 = RAW1
        self.buf1 = bytearray(RAW1)

    def call(self, name):
        a = self.a
        if name == "enc1":
            d = dict(DOC1)
            return lambda: (_enc(a.encode(d, self.s1)), d)
        if name == "enc1b":
            d = {"t": "0800", "2": "987", "3": "zz", "129": "k"}
            return lambda: (_enc(a.encode(d, self.s1)), d)
        if name == "enc2":
            d = dict(DOC2)
            return lambda: (_enc(a.encode(d, self.s2)), d)
        if name == "enc3":
            d = dict(DEC3)
            return lambda: (_enc(a.encode(d, self.s1)), d)
        if name == "encbad":
            d = dict(DOC1, **{"66": "XY"})
            return lambda: _err(lambda: a.encode(d, self.s1), a.EncodeError)
        if name == "dec1":
            return lambda: a.decode(self.raw1, self.s1)
        if name == "decbuf":
            return lambda: a.decode(self.buf1, self.s1)
        if name == "dec2":
            return lambda: a.decode(RAW2, self.s2)
        if name == "dec3":
            return lambda: a.decode(RAW3, self.s1)
        if name == "decbad":
            return lambda: _err(lambda: a.decode(RAW1[:-1], self.s1), a.DecodeError)
        if name in ("pp1", "pp2"):
            out = Out()
            d, s = (PPDOC1, self.s1) if name == "pp1" else (PPDOC2, self.s2)

            def go():
                a.pp(d, s, 8, out, 40)
                return out.text()
            return go
        raise KeyError(name)


def _enc(r):
    return bytes(r[0]), r[1]


def _err(fn, cls):
    try:
        fn()
    except cls as e:
        return (e.msg, e.field, getattr(e, "pos", None), {k: e.doc_enc[k] for k in e.doc_enc if k != e.field})
    return "no error"


def _bad(fn):
    try:
        fn()
    except ref.Bad as b:
        return (b.msg, b.field, b.pos, {k: v for k, v in b.enc.items() if k != b.field})


def expected(name):
    s1, s2 = _s1(), _s2()

    def enc(d, s):
        raw, e, after = ref.encode(d, s)
        return (raw, e), after
    return {
        "enc1": lambda: enc(dict(DOC1), s1), "enc1b": lambda: enc({"t": "0800", "2": "987", "3": "zz", "129": "k"}, s1), "enc2": lambda: enc(dict(DOC2), s2), "enc3": lambda: enc(dict(DEC3), s1),
        "encbad": lambda: _bad(lambda: ref.encode(dict(DOC1, **{"66": "XY"}), s1)),
        "dec1": lambda: ref.decode(RAW1, s1), "decbuf": lambda: ref.decode(RAW1, s1), "dec2": lambda: ref.decode(RAW2, s2), "dec3": lambda: ref.decode(RAW3, s1),
        "decbad": lambda: _bad(lambda: ref.decode(RAW1[:-1], s1)),
        "pp1": lambda: ref.pp(PPDOC1, s1, 8, 40), "pp2": lambda: ref.pp(PPDOC2, s2, 8, 40),
    }[name]()


NAMES = ["enc1", "enc1b", "enc2", "enc3", "encbad", "dec1", "decbuf", "dec2", "dec3", "decbad", "pp1", "pp2"]
WANT = {n: expected(n) for n in NAMES}
SNAP1, SNAP2 = _s1(), _s2()


def norm(x):
    return tuple(norm(y) for y in x) if isinstance(x, (tuple, list)) else x


def use(w, rounds=700):
    """A long-running process: every table, cache and pool the library may keep is as full as it gets."""
    a = w.a
    spec = dict(w.s1)
    for f in range(2, 129):
        if f not in (1, 65):
            spec[str(f)] = F("ascii" if f % 2 else "utf-8", "ascii", 2, 99)
    for i in range(rounds):
        d = {"t": "%04d" % i}
        for j in (2 + i % 60, 3 + i % 61, 66 + i % 59, 2 + i * 7 % 62):
            d[str(j)] = ("%d" % (i * 11 + j)) * (1 + i % 9)
        raw, _ = a.encode(d, spec)
        dec, enc = a.decode(bytes(raw), spec)
        if i % 4 == 0:
            a.pp(dec, spec, i % 30, Out(), 20 + i % 90)
        if i % 8 == 0:
            try:
                a.decode(bytes(raw[:-1]), spec)
            except a.DecodeError:
                pass


def forked(fn):
    """Run an execution in a fork of this process, so that the state it starts from is shared but never changed."""
    def g(ch):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            engine.watch()
            try:
                try:
                    res = "ok", fn(ch)
                except BaseException as e:
                    res = "raised", e, LAST[0]
                try:
                    data = pickle.dumps((res, ch.path, ch.ns, ch.pos, ch.new))
                except Exception:
                    v = Violation(getattr(res[1], "msg", "%s: %s" % (type(res[1]).__name__, res[1])), {"detail": engine.safe_repr(getattr(res[1], "case", None))})
                    data = pickle.dumps((("raised", v, engine.safe_repr(LAST[0])), ch.path, ch.ns, ch.pos, ch.new))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with engine.waiting():
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
        engine._beat[0] += 1
        if not data:
            raise Violation("the process died")
        res, ch.path[:], ch.ns[:], ch.pos, ch.new = pickle.loads(data)
        if res[0] == "ok":
            return res[1]
        LAST[0] = res[2]
        raise res[1]
    return g


_USED = []


def used():
    """The library in use for a long time (one per process, never changed: executions run in forks)."""
    if not _USED:
        w = World()
        with sched.patched_locks():
            use(w)
        _USED.append(w)
    return _USED[0]


_PLANS = {}


def recorded(run, opcodes, warm):
    if warm != "used":
        return sched.record(run, opcodes)
    return forked(lambda ch: sched.record(run, opcodes))(Ch())


def points(names, opcodes, warm, bound, execs, cost):
    """Choose the scheduling points so that about `execs` executions, and about `cost` trace events in all, remain."""
    key = names, opcodes, warm, bound, execs, cost
    if key not in _PLANS:
        w = used() if warm == "used" else World()
        runs = [w.call(n) for n in names]
        with sched.patched_locks():
            if warm is True:
                for r in runs:
                    r()
                runs = [w.call(n) for n in names]
            recs = [recorded(r, opcodes, warm) for r in runs]
        e = max(min(execs, cost // max(sum(n for _, n in recs), 1)), 200)
        k = len(names)
        if warm is True:
            e //= 2
        # executions for P points in all: k first threads, (k-1) targets and (k-1)! completion orders
        if bound == 1:
            p = e // (1 if k == 2 else 2 * (k - 1) * (k - 1))
        elif k == 2:
            p = int(k * (e / 2) ** (1 / bound))
        else:
            p = int((e / 12) ** (1 / bound))
        _PLANS[key] = sched.Plan([q for q, _ in recs], p)
    return _PLANS[key]


def body(names, bound, opcodes, execs, cost=30000000, warm=False):
    def fn(ch):
        plan = points(names, opcodes, warm, bound, execs, cost)
        w = used() if warm == "used" else World()
        LAST[0] = ("threads", names, warm)
        if warm is True:  # the same calls have been made before, the last one being either thread's
            order = list(names) if ch.choose(2) else list(names)[::-1]
            LAST[0] = ("threads", names, "after", order)
            for n in order:
                if norm(w.call(n)()) != norm(WANT[n]):
                    raise Violation("%s gave a different result after %s" % (n, order))
        sc = Scheduler(ch, bound, opcodes, plan)
        with sched.patched_locks():
            res = sc.run([w.call(n) for n in names])
        for i, n in enumerate(names):
            how, got = res[i] if res[i] else ("lost", None)
            if how == "raised":
                raise Violation("%s raised %s: %s when run concurrently with %s" % (n, type(got).__name__, got, names))
            if how != "returned" or norm(got) != norm(WANT[n]):
                raise Violation("%s gave a different result when run concurrently with %s" % (n, names), {"got": got, "expected": WANT[n], "thread": i})
        for n in names:
            if norm(w.call(n)()) != norm(WANT[n]):
                raise Violation("%s gives a different result after concurrent calls of %s" % (n, names))
        if w.s1 != SNAP1 or w.s2 != SNAP2 or w.buf1 != RAW1:
            raise Violation("a shared argument was modified")
        return "switches: %d" % sc.switches
    if warm == "used":
        inner = forked(fn)

        def fn(ch):
            points(names, opcodes, warm, bound, execs, cost)
            used()
            return inner(ch)
    return fn


PAIRS = [("enc1", "enc1b"), ("enc1", "enc2"), ("dec1", "dec2"), ("dec1", "decbuf"), ("enc1b", "dec1"), ("pp1", "pp2"), ("enc2", "pp1"), ("dec2", "pp2"), ("encbad", "enc1b"), ("decbad", "dec2")]
SHORT = [("enc3", "enc3"), ("dec3", "dec3"), ("enc3", "dec3"), ("enc3", "encbad"), ("dec3", "decbad"), ("pp2", "pp2")]
TRIPLES = [("enc1", "enc1b", "enc2"), ("dec1", "dec2", "decbuf"), ("enc1b", "dec1", "pp1"), ("enc2", "dec2", "pp2"), ("encbad", "decbad", "enc3")]


def c13(tier):
    th = tier == "thorough"
    hs = []

    def add(name, bound, opcodes, execs, what, warm=False):
        p = tuple(name)
        cost = execs * (40000 if th else 8000)
        label = "%s%s bound %d: %s" % ("used " if warm == "used" else "warm " if warm else "", "bytecode" if opcodes else "line", bound, " | ".join(p))
        text = "%d threads%s, every %s is a scheduling point, at most %d preemption%s, %s; thinned evenly per code location beyond about %d executions" % (
            len(p), ", after 700 rounds of calls with distinct contents" if warm == "used" else ", after both calls have been made once in either order" if warm else "", "bytecode that can touch shared state" if opcodes else "line", bound, "s" if bound > 1 else "", what, execs)
        hs.append(Harness(label, body(p, bound, opcodes, execs, cost, warm), text, spine=True))

    either, orders = "either thread first", "any thread first, every completion order"
    for p in PAIRS + SHORT:
        add(p, 1, True, 40000 if th else 5000, either)
    for p in PAIRS + SHORT:
        add(p, 1, True, 40000 if th else 6000, either, warm=True)
    for p in PAIRS + SHORT:
        add(p, 1, True, 30000 if th else 1500, either, warm="used")
    for i, p in enumerate(SHORT):
        add(p, 2, False, 200000 if th else 8000, either)
    add(SHORT[0], 2, True, 400000 if th else 30000, either)
    if th:
        for p in PAIRS:
            add(p, 2, False, 60000, either)
        for p in SHORT[1:]:
            add(p, 2, True, 100000, either)
    for t in TRIPLES:
        add(t, 1, False, 60000 if th else 8000, orders)
        if th:
            add(t, 2, False, 40000, orders)
    if th:
        for p in SHORT:
            add(p, 3, False, 60000, either)
    return hs, {"assumptions": ["scheduling points are the bytecodes / lines of the package; built-in functions called from it (codecs, dict and bytes methods) are atomic, as under the interpreter lock",
                                "sharing of dictionaries under construction and of streams between threads is not promised"]}


PROPS = {"C13": c13}
