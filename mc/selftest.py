"""Checks of the machinery itself: the explorers must find planted faults in toy systems and cover them fully."""
import threading

from . import engine, sched
from .engine import Bfs, Harness, Violation


def _tree(ch):
    a, b = ch.upto(4), ch.flag()
    c = ch.choose(a + 1)
    return "%d%d%d" % (a, b, c)


def _buggy(ch):
    x = [ch.choose(3) for _ in range(6)]
    if x == [2, 0, 1, 1, 2, 0]:
        raise Violation("found")
    return "ok"


def _threads(lock):
    def fn(ch):
        from . import api
        box = [0]
        code = "def bump(box, lock):\n    if lock: lock.acquire()\n    x = box[0]\n    x = x + 1\n    box[0] = x\n    if lock: lock.release()\n"
        ns = {}
        exec(compile(code, api.PKG + "/toy.py", "exec"), ns)
        with sched.patched_locks():
            lk = threading.Lock() if lock else None
            s = sched.Scheduler(ch, 1, True)
            s.run([lambda: ns["bump"](box, lk), lambda: ns["bump"](box, lk)])
        if box[0] != 2:
            raise Violation("lost update")
        return "ok"
    return fn


def _documentation():
    """The reference must reproduce the examples of the README and the docstrings (typed in here, not run from /repo)."""
    from . import ref
    from .props.shipped import TABLES
    spec = {k: dict(v) for k, v in TABLES["default_ascii"].items()}
    dec, enc = ref.decode(b"02004000000000000000101234567890", spec)
    assert list(dec.items()) == [("t", "0200"), ("p", "4000000000000000"), ("2", "1234567890")]
    assert enc == {"t": {"len": b"", "data": b"0200"}, "p": {"len": b"", "data": b"4000000000000000"}, "2": {"len": b"10", "data": b"1234567890"}}
    dec["t"] = "0210"
    del dec["2"]
    dec["39"] = "05"
    raw, enc, after = ref.encode(dec, spec)
    assert raw == b"0210000000000200000005" and after == {"t": "0210", "p": "0000000002000000", "39": "05"}
    raw, _, _ = ref.encode({"t": "0210", "3": "111111", "39": "05"}, spec)
    assert raw == b"0210200000000200000011111105"
    dec, _ = ref.decode(b"02004010100000000000161234567890123456123456840", spec)
    assert dec == {"12": "123456", "2": "1234567890123456", "20": "840", "p": "4010100000000000", "t": "0200"}
    assert ref.pp(dec, spec, 30, 80) == (
        "t   Message Type                  : '0200'\n"
        "p   Bitmap, Primary               : '4010100000000000'\n"
        "2   Primary Account Number (PAN)  : '1234567890123456'\n"
        "12  Time, Local Transaction       : '123456'\n"
        "20  PAN Country Code              : '840'\n")


def run(props):
    _documentation()
    res, v = engine.explore([Harness("tree", _tree, "")])
    assert not v and res["tree"].executions == 2 * (1 + 2 + 3 + 4 + 5) and len(res["tree"].outcomes) == 30, res["tree"].executions
    res, v = engine.explore([Harness("spine", _tree, "", spine=True)])
    assert not v and res["spine"].executions == 30 and len(res["spine"].outcomes) == 30
    res, v = engine.explore([Harness("buggy", _buggy, "")])
    assert v and v[0]["choices"] == [2, 0, 1, 1, 2, 0]
    res, v = engine.explore([Harness("race", _threads(False), "", spine=True)])
    assert v and v[0]["msg"] == "lost update"
    res, v = engine.explore([Harness("locked", _threads(True), "", spine=True)])
    assert not v and res["locked"].executions > 8, v
    b = Bfs("counter", lambda: [0], lambda s: [1, 3], lambda s, e: ((s + e) % 7, "ok"), lambda s: s, "")
    res, v = engine.explore([b])
    assert not v and res["counter"].points == 7
    for pid, p in sorted(props.items()):
        for tier in ("quick", "thorough"):
            hs, meta = p(tier)
            assert hs and len({h.name for h in hs}) == len(hs), pid
    print("self-test passed: %d properties" % len(props))
    return 0
