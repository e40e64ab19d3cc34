"""C21: a call cut short at any point leaves nothing behind."""
import os
import copy
import sys

from .. import ref
from .. import spaces as S
from ..api import fresh
from ..engine import LAST, Harness, Violation
from ..sched import Injector, Plan, record
from ..spaces import F
from . import codec as C
from .conc import NAMES, PPDOC1, PPDOC2, SNAP1, SNAP2, WANT, World, norm
from .history import DOC1, DOC2, RAW1, RAW2, _s1, _s2
from .printing import Out


class Boom(BaseException):
    pass


CALLS = ["enc1", "enc1b", "enc2", "enc3", "encbad", "dec1", "decbuf", "dec2", "dec3", "decbad", "pp1", "pp2"]
_EVENTS = {}


def _events(name, opcodes, cap=1 << 30):
    """The event numbers to inject at: all of them, thinned evenly per code location beyond `cap`."""
    k = (name, opcodes, cap)
    if k not in _EVENTS:
        w = World()
        seq, _ = record(w.call(name), opcodes, False)
        inj = Injector(None, None, opcodes)
        inj(World().call(name))
        assert inj.n == len(seq), (inj.n, len(seq))
        _EVENTS[k] = list(Plan([seq], cap).indices(seq))
    return _EVENTS[k]


def _process():
    import codecs
    import gc
    import locale
    import signal
    import warnings
    return {"sys.stdout": sys.stdout, "sys.stderr": sys.stderr, "sys.stdin": sys.stdin, "the recursion limit": sys.getrecursionlimit(), "sys.excepthook": sys.excepthook, "sys.displayhook": sys.displayhook,
            "garbage collection": gc.isenabled(), "the collection threshold": gc.get_threshold(), "the switch interval": sys.getswitchinterval(), "the limit on digits": sys.get_int_max_str_digits(),
            "the warning filters": list(warnings.filters), "the locale": locale.setlocale(locale.LC_ALL), "the working directory": os.getcwd(), "the environment": dict(os.environ),
            "the interrupt handler": signal.getsignal(signal.SIGINT), "the codec error handler": codecs.lookup_error("strict"), "the import path": list(sys.path)}


def guarded(fn):
    """Nothing that belongs to the whole process is different after the call."""
    def g(ch):
        import gc
        old = _process()
        try:
            out = fn(ch)
            for what, y in _process().items():
                if old[what] is not y and old[what] != y:
                    raise Violation("%s was replaced by an interrupted call" % what, {"now": repr(y)})
            return out
        finally:
            sys.stdout, sys.stderr, sys.stdin = old["sys.stdout"], old["sys.stderr"], old["sys.stdin"]
            if sys.getrecursionlimit() != old["the recursion limit"]:
                sys.setrecursionlimit(old["the recursion limit"])
            sys.excepthook = old["sys.excepthook"]
            if old["garbage collection"]:
                gc.enable()
    return g


def _battery(w, names, what):
    for n in names:
        got = w.call(n)()
        if norm(got) != norm(WANT[n]):
            raise Violation("%s behaves differently after an interrupted call (%s)" % (n, what), {"got": got, "expected": WANT[n]})


def _arguments(w, docs, what):
    if w.s1 != SNAP1 or w.s2 != SNAP2:
        raise Violation("a specification was changed by an interrupted call (%s)" % what)
    if w.buf1 != RAW1 or w.raw1 != RAW1:
        raise Violation("the decode input was changed by an interrupted call (%s)" % what)


def _fields(d):
    return {k: v for k, v in d.items() if k not in ("p", "1", "65")}


def interrupted(opcodes, follow, cap=1 << 30):
    """Raise at every event of the call; repeat the call; run other calls."""
    def fn(ch):
        name = ch.pick(CALLS)
        k = ch.pick(_events(name, opcodes, cap))
        exc = Boom("interrupted") if k % 2 else KeyboardInterrupt("interrupted")
        w = World()
        a = w.a
        inj = Injector(k, exc, opcodes)
        LAST[0] = ("interrupt", name, "event %d" % k)
        doc = before = None
        if name.startswith("enc"):
            doc = {"enc1": DOC1, "enc1b": {"t": "0800", "2": "987", "3": "zz", "129": "k"}, "enc2": DOC2, "enc3": {"t": "0200", "3": "ok"}, "encbad": dict(DOC1, **{"66": "XY"})}[name]
            doc = dict(doc, p="stale", **{"1": "stale", "65": "stale"})
            before = _fields(doc)
            spec = w.s2 if name == "enc2" else w.s1
            call = lambda: a.encode(doc, spec)  # noqa: E731
        elif name.startswith("pp"):
            doc = copy.deepcopy(PPDOC1 if name == "pp1" else PPDOC2)
            before = copy.deepcopy(doc)
            out = Out()
            call = lambda: a.pp(doc, w.s1 if name == "pp1" else w.s2, 8, out, 40)  # noqa: E731
        else:
            call = w.call(name)
        what = "%s at event %d" % (name, k)
        try:
            inj(call)
        except (Boom, KeyboardInterrupt) as e:
            if e is not exc:
                raise Violation("another exception than the injected one reached the caller (%s): %r" % (what, e)) from None
        except Exception as e:
            if inj.where is not None:
                raise Violation("the injected exception was replaced by %s: %s (%s, %s)" % (type(e).__name__, e, what, inj.where)) from None
        else:
            if inj.where is not None and not inj.discarded:
                raise Violation("the injected exception was swallowed (%s, %s)" % (what, inj.where))
        _arguments(w, None, what)
        if name.startswith("enc"):
            if _fields(doc) != before:
                raise Violation("an interrupted encode changed more than the bitmaps (%s)" % what, {"before": before, "after": doc})
            if name != "encbad":
                raw, enc = a.encode(doc, w.s2 if name == "enc2" else w.s1)
                want = ref.encode(dict(before), SNAP2 if name == "enc2" else SNAP1)
                if bytes(raw) != want[0] or enc != want[1] or doc != want[2]:
                    raise Violation("encode repeated after an interruption differs (%s)" % what, {"got": bytes(raw), "expected": want[0]})
        elif name.startswith("pp"):
            if doc != before:
                raise Violation("an interrupted pp changed the dictionary (%s)" % what)
            text = out.text()
            if not WANT[name].startswith(text):
                raise Violation("an interrupted pp wrote something else than a part of its output (%s)" % what, {"got": text})
        _battery(w, [name] + follow(name), what)
        return "%s interrupted" % name
    return fn


def follow_all(name):
    return NAMES


def follow_few(name):
    return ["enc1", "dec1", "dec2", "pp1"]


def double(s1, s2):
    def fn(ch):
        return _double(ch, s1, s2)
    return fn


def _double(ch, s1, s2):
    """Two interrupted calls in a row, then everything else (coarser second fault)."""
    n1, n2 = ch.pick(("enc1b", "dec1", "pp1")), ch.pick(("enc1b", "dec1", "pp1", "enc2", "dec2"))
    k1 = ch.pick(_events(n1, False, s1))
    k2 = ch.pick(_events(n2, False, s2))
    w = World()
    LAST[0] = ("interrupt twice", n1, k1, n2, k2)
    for n, k in ((n1, k1), (n2, k2)):
        exc = Boom("x")
        try:
            Injector(k, exc)(w.call(n))
        except Boom:
            pass
    _arguments(w, None, "two faults")
    _battery(w, [n1, n2, "enc1", "dec2"], "two faults: %s@%d %s@%d" % (n1, k1, n2, k2))
    return "two faults"


class FailStream(Out):
    def __init__(self, k, exc):
        super().__init__()
        self.k, self.exc = k, exc

    def write(self, s):
        if len(self.parts) == self.k:
            raise self.exc
        return super().write(s)


def streams(ch):
    """The output stream fails at its k-th write."""
    name = ch.pick(("pp1", "pp2", "long"))
    exc = ch.pick((OSError("disk full"), ValueError("closed file"), KeyboardInterrupt("x"), UnicodeEncodeError("ascii", "é", 0, 1, "x"), KeyError("x"), TypeError("x"), LookupError("x"), EOFError("x"), AttributeError("x"), RuntimeError("x")))
    doc, specno = {"pp1": (PPDOC1, 1), "pp2": (PPDOC2, 2), "long": ({"t": "0200", "2": "x'" * 100, "3": {"len": b"1", "data": b"\x00a'" * 50}, "66": ""}, 1)}[name]
    w = World()
    s = w.s1 if specno == 1 else w.s2
    want = ref.pp(doc, SNAP1 if specno == 1 else SNAP2, 8, 40)
    # number of writes the implementation makes
    probe = Out()
    w.a.pp(copy.deepcopy(doc), s, 8, probe, 40)
    if probe.text() != want:
        raise Violation("pp output differs", {"got": probe.text()})
    w = World()
    s = w.s1 if specno == 1 else w.s2
    k = ch.choose(len(probe.parts)) if len(probe.parts) > 1 else 0
    default = ch.flag()
    out = FailStream(k, exc)
    d = copy.deepcopy(doc)
    LAST[0] = ("failing stream", name, k, repr(exc), "as sys.stdout" if default else "as argument")
    old = sys.stdout
    try:
        if default:
            sys.stdout = out
            try:
                w.a.pp(d, s, 8, None, 40)
            finally:
                if sys.stdout is out:
                    sys.stdout = old
        else:
            w.a.pp(d, s, 8, out, 40)
    except BaseException as e:
        if e is not exc:
            raise Violation("the stream's exception was replaced by %r" % e, {"expected": repr(exc)}) from None
    else:
        raise Violation("the stream's exception was swallowed", {"exception": repr(exc)})
    if d != doc:
        raise Violation("pp changed the dictionary")
    if not want.startswith(out.text()):
        raise Violation("pp wrote something else than a part of its output", {"got": out.text()})
    _arguments(w, None, "failing stream")
    out2 = Out()
    w.a.pp(d, s, 8, out2, 40)
    if out2.text() != want:
        raise Violation("pp after a failing stream differs", {"got": out2.text(), "expected": want})
    _battery(w, NAMES, "failing stream")
    return "stream failed"


class _Counted:
    """Codec behaviour: the k-th call raises."""


_PLAN = [None, 0, 0]


def _register():
    import codecs

    def hit():
        _PLAN[1] += 1
        if _PLAN[0] is not None and _PLAN[1] - 1 == _PLAN[2]:
            raise _PLAN[0]

    def dec(b, errors="strict"):
        hit()
        return codecs.latin_1_decode(b, errors)

    def enc(s, errors="strict"):
        hit()
        return codecs.latin_1_encode(s, errors)

    codecs.register(lambda name: codecs.CodecInfo(enc, dec, name="mccount") if name == "mccount" else None)


_register()


def codecs_fail(ch):
    """The k-th codec call of an encode or decode fails."""
    w = World()
    a = w.a
    spec, doc = S.env(0)
    for k in ("t", "p", "1"):
        spec[k] = dict(spec[k], data_enc="mccount")
    spec["h"] = F("mccount", "mccount", 1, 6)
    spec["2"] = F("mccount", "mccount", 2, 19)
    spec["66"] = F("mccount", "b", 1, 9)
    spec["129"] = F("mccount", ml=1)
    doc.update({"h": "HD", "2": "12345", "66": "xyz", "129": "q"})
    snap = copy.deepcopy(spec)
    raw, wenc, wdoc = ref.encode(dict(doc), spec)
    wdec, wenc2 = ref.decode(raw, spec)
    op = ch.pick(("encode", "decode"))
    exc = ch.pick([e for e in C.EXCS] + [KeyboardInterrupt("x"), Boom("x"), GeneratorExit("x")])
    _PLAN[:] = [None, 0, 0]
    d = dict(doc)
    (lambda: a.encode(d, spec) if op == "encode" else a.decode(raw, spec))()
    n = _PLAN[1]
    k = ch.choose(n) if n > 1 else 0
    w = World()
    a = w.a
    d = dict(doc, p="stale")
    before = _fields(d)
    LAST[0] = ("failing codec", op, "call %d" % k, repr(exc))
    _PLAN[:] = [exc, 0, k]
    try:
        if op == "encode":
            a.encode(d, spec)
        else:
            a.decode(raw, spec)
    except (a.EncodeError if op == "encode" else a.DecodeError) as e:
        if not isinstance(exc, Exception):
            raise Violation("%s turned %r into %r" % (op, exc, e)) from None
    except BaseException as e:
        if e is not exc or isinstance(exc, Exception):
            raise Violation("%s: codec failure %r reached the caller as %r" % (op, exc, e)) from None
    else:
        raise Violation("%s swallowed a codec failure" % op, {"exception": repr(exc)})
    finally:
        _PLAN[:] = [None, 0, 0]
    if spec != snap:
        raise Violation("the specification was changed")
    if _fields(d) != before:
        raise Violation("a failed encode changed more than the bitmaps", {"before": before, "after": d})
    r, e = a.encode(d, spec)
    if bytes(r) != raw or e != wenc or d != wdoc:
        raise Violation("encode after a codec failure differs", {"got": bytes(r), "expected": raw})
    x, y = a.decode(raw, spec)
    if x != wdec or y != wenc2:
        raise Violation("decode after a codec failure differs", {"got": x, "expected": wdec})
    _battery(w, NAMES, "failing codec")
    return "codec failed"


def _deep(n, fn):
    return fn() if n <= 0 else _deep(n - 1, fn)


def exhausted(ch):
    """The call is made with room for only k more stack frames."""
    name = ch.pick(CALLS)
    k = ch.choose(40)
    w = World()
    doc = None
    if name.startswith("enc"):
        doc = dict({"enc1": DOC1, "enc1b": {"t": "0800", "2": "987", "3": "zz", "129": "k"}, "enc2": DOC2, "enc3": {"t": "0200", "3": "ok"}, "encbad": dict(DOC1, **{"66": "XY"})}[name])
        before = _fields(doc)
        call = lambda: w.a.encode(doc, w.s2 if name == "enc2" else w.s1)  # noqa: E731
    else:
        call = w.call(name)
    LAST[0] = ("stack exhausted", name, "%d frames left" % k)
    limit = sys.getrecursionlimit()
    depth = 0
    f = sys._getframe()
    while f is not None:
        depth, f = depth + 1, f.f_back
    sys.setrecursionlimit(depth + 120)
    try:
        _deep(118 - k, call)
        how = "finished"
    except Exception as e:  # which one is the code's own business: what counts is what it leaves behind
        how = type(e).__name__
    finally:
        sys.setrecursionlimit(limit)
    what = "%s with %d stack frames" % (name, k)
    _arguments(w, None, what)
    if doc is not None and _fields(doc) != before:
        raise Violation("an encode without stack changed more than the bitmaps (%s)" % what, {"before": before, "after": doc})
    _battery(w, [name] + NAMES, what)
    return how


def c21(tier):
    th = tier == "thorough"
    def add(name, fn, bound):
        hs.append(Harness(name, guarded(fn), bound))
    hs = []
    add("interrupt at every line", interrupted(False, follow_all, 40000 if th else 2500), "12 calls x an exception at every call/line event; then the same call and 12 others")
    add("interrupt at every bytecode", interrupted(True, follow_all if th else follow_few, 100000 if th else 4000), "12 calls x an exception at every bytecode (thinned evenly per code location beyond %d); then the same call and %s others" % ((100000, "12") if th else (4000, "4")))
    add("failing stream", streams, "3 dictionaries x 10 exceptions x every write, the stream given as an argument or as sys.stdout")
    add("stack exhausted", exhausted, "12 calls x 0-39 stack frames left; then the same call and 12 others")
    add("failing codec", codecs_fail, "encode and decode x 17 exceptions x every codec call")
    add("two interruptions", double(*((400, 250) if th else (100, 40))), "3 x 5 calls, %d x %d line events spread evenly over the code locations" % ((400, 250) if th else (100, 40)))
    return hs, {"assumptions": ["exceptions are injected at Python bytecode boundaries of the package and inside stream and codec calls, where CPython can deliver them"]}


PROPS = {"C21": c21}
