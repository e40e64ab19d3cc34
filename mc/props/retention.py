"""C22: finished calls do not accumulate memory, whatever the history.  C23: work is proportional to the message."""
import copy
import gc
import sys
import threading
import tracemalloc

from .. import ref
from .. import spaces as S
from ..api import PKG, fresh
from ..api import std as A
from .. import engine
from ..engine import LAST, Harness, Violation
from ..spaces import F

WINDOWS = (1000, 1000, 2000, 4000, 8000, 16000)
PER_CALL = 3.0  # bytes kept per call that are not counted as growth


class Null:
    def write(self, s):
        pass


def _spec(e, i=0):
    spec, doc = S.env(e)
    spec = {k: dict(v) for k, v in spec.items()}
    spec["2"] = F("ascii", "ascii", 2, 19)
    spec["3"] = F("b", "bcd", 1, 19, len_count="nibbles", left_pad="0")
    spec["66"] = F("utf-8", "b", 1, 40)
    spec["129"] = F("latin-1", "ascii", 2, 40)
    if i:
        spec["2"]["max_len"] = 19 + i
        spec["3"]["desc"] = "field %d" % i
    return spec, doc


def _doc(doc, i):
    d = dict(doc)
    d["2"] = "%012d" % i
    d["3"] = "%09d" % i
    d["66"] = "value %d" % i
    if i % 2:
        d["129"] = "%d é" % i
    return d


def kinds():
    """name -> function(api, envelope) returning call(i): every call has arguments never used before."""
    out = {}

    def kind(f):
        out[f.__name__.replace("_", " ")] = f
        return f

    @kind
    def encode(a, e):
        spec, doc = _spec(e)
        return lambda i: a.encode(_doc(doc, i), spec)

    @kind
    def encode_with_new_specifications(a, e):
        def call(i):
            spec, doc = _spec(e, i)
            a.encode(_doc(doc, i), spec)
        return call

    @kind
    def decode(a, e):
        spec, doc = _spec(e)
        return lambda i: a.decode(a.encode(_doc(doc, i), spec)[0], spec)

    @kind
    def decode_bytes_with_new_specifications(a, e):
        def call(i):
            spec, doc = _spec(e, i)
            a.decode(bytes(a.encode(_doc(doc, i), spec)[0]), spec)
        return call

    @kind
    def decode_failing_at_the_end(a, e):
        spec, doc = _spec(e)

        def call(i):
            raw = a.encode(_doc(doc, i), spec)[0]
            try:
                a.decode(raw + b"%d" % i, spec)
            except a.DecodeError:
                return
            raise Violation("extra data accepted")
        return call

    @kind
    def decode_failing_early(a, e):
        spec, doc = _spec(e)

        def call(i):
            raw = a.encode(_doc(doc, i), spec)[0]
            try:
                a.decode(raw[:i % len(raw)], spec)
            except a.DecodeError:
                return
            raise Violation("truncated message accepted")
        return call

    @kind
    def encode_failing_value(a, e):
        spec, doc = _spec(e)

        def call(i):
            try:
                a.encode(dict(_doc(doc, i), **{"3": "%dG" % i}), spec)
            except a.EncodeError:
                return
            raise Violation("bad value accepted")
        return call

    @kind
    def encode_failing_keys(a, e):
        spec, doc = _spec(e)

        def call(i):
            d = _doc(doc, i)
            d[(str(1000 + i), "0%d" % i, 5000 + i)[i % 3]] = "x"
            try:
                a.encode(d, spec)
            except a.EncodeError:
                return
            raise Violation("bad key accepted")
        return call

    @kind
    def encode_failing_undefined_field(a, e):
        spec, doc = _spec(e)

        def call(i):
            try:
                a.encode(dict(_doc(doc, i), **{str(4 + i % 60): "x%d" % i}), spec)
            except a.EncodeError:
                return
            raise Violation("undefined field accepted")
        return call

    @kind
    def unknown_codecs(a, e):
        spec, doc = _spec(e)

        def call(i):
            spec["2"] = F("no-such-codec-%d" % (i % 7), "ascii", 2, 19)
            try:
                a.encode(_doc(doc, i), spec)
            except a.EncodeError:
                return
            raise Violation("unknown codec accepted")
        return call

    @kind
    def one_dictionary_edited(a, e):
        spec, doc = _spec(e)
        d = dict(doc)

        def call(i):
            d[("2", "3", "66", "129")[i % 4]] = "%d" % (i % 100000)
            d.pop(("3", "66", "129", "2")[i % 4], None)
            a.encode(d, spec)
        return call

    @kind
    def pp_of_decoded(a, e):
        spec, doc = _spec(e)
        return lambda i: a.pp(_doc(doc, i), spec, i % 50, Null(), 20 + i % 70)

    @kind
    def pp_of_encoded_with_new_specifications(a, e):
        def call(i):
            spec, doc = _spec(e, i)
            enc = {k: {"len": b"%d" % i, "data": v.encode()} for k, v in _doc(doc, i).items()}
            a.pp(enc, spec, 10, Null(), 20)
        return call

    @kind
    def pp_failing(a, e):
        spec, doc = _spec(e)

        class Full:
            def __init__(self, n):
                self.n = n

            def write(self, s):
                self.n -= 1
                if self.n < 0:
                    raise OSError("full")

        def call(i):
            try:
                a.pp(_doc(doc, i), spec, 10, Full(i % 9), 20)
            except OSError:
                pass
        return call

    @kind
    def new_types_and_headers(a, e):
        spec, doc = _spec(e)

        def call(i):
            d = dict(doc, t=_type(spec, i))
            if spec["h"]["max_len"] > 0:
                d["h"] = _head(spec, doc["h"], i)
            raw, _ = a.encode(d, spec)
            a.decode(raw, spec)
            a.pp(d, spec, 9, Null(), 30)
        return call

    @kind
    def new_field_sets(a, e):
        spec, doc = _spec(e)
        pool = [str(f) for f in list(range(2, 10)) + list(range(66, 74)) + list(range(129, 137))]
        for k in pool:
            spec[k] = F("ascii", ml=1)

        def call(i):
            m = i * 40503 % (1 << 24)
            raw, _ = a.encode(dict(doc, **{k: "x" for j, k in enumerate(pool) if m >> j & 1}), spec)
            a.decode(bytes(raw), spec)
        return call

    @kind
    def failing_types_bitmaps_and_lengths(a, e):
        spec, doc = _spec(e)
        raw = bytes(a.encode(_doc(doc, 1), spec)[0])

        def call(i):
            b = b"%06d" % i
            cut = i % (len(raw) - 8)
            for x in (raw[:cut] + b + b"\xff\xfe" + raw[cut + 8:], raw[:cut] + b):
                try:
                    a.decode(x, spec)
                except a.DecodeError:
                    pass
            try:
                a.encode(dict(doc, t="%d!" % (i + 10000)), spec)
            except a.EncodeError:
                return
            raise Violation("bad type accepted")
        return call

    @kind
    def wrong_arguments(a, e):
        spec, doc = _spec(e)

        def call(i):
            for fn, x in ((a.decode, "text %d" % i), (a.encode, [i]), (a.encode, b"%d" % i), (a.decode, memoryview(b"%d" % i))):
                try:
                    fn(x, spec)
                except TypeError:
                    continue
                raise Violation("wrong argument type accepted")
        return call

    @kind
    def new_widths_and_descriptions(a, e):
        spec, doc = _spec(e)

        def call(i):
            spec["2"]["desc"] = "description %d" % i
            a.pp({"t": "0200", "2": "%d" % i}, spec, i, Null(), i)
        return call

    @kind
    def new_keys_that_are_not_fields(a, e):
        spec, doc = _spec(e)

        def call(i):
            d = dict(_doc(doc, i), **{"note %d" % i: "x"})
            a.encode(d, spec)
            a.pp(d, spec, 9, Null(), 30)
        return call

    @kind
    def calls_in_new_threads(a, e):
        spec, doc = _spec(e)
        one = decode(a, e)

        def call(i):
            if i % 10 == 0:  # starting threads is slow
                t = threading.Thread(target=one, args=(i,))
                t.start()
                t.join()
        return call
    return out


LETTERS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def _letters(i, n):
    out = ""
    for _ in range(n):
        out, i = LETTERS[i % 62] + out, i // 62
    return out


def _type(spec, i):
    return "%04X" % (i % 65536) if spec["t"]["data_enc"] == "b" else _letters(i, 4)


def _head(spec, sample, i):
    return "%0*X" % (len(sample), i % 16 ** len(sample)) if spec["h"]["data_enc"] == "b" else _letters(i, len(sample))


KINDS = kinds()


def _grows(calls, what):
    """Run ever longer windows until one passes without growth."""
    n = 0
    tracemalloc.start()
    try:
        last = None
        for w in WINDOWS:
            for i in range(n, n + w):
                calls[i % len(calls)](i + 1)
                engine._beat[0] += 1
            n += w
            gc.collect()
            now = tracemalloc.get_traced_memory()[0]
            if last is not None and now - last < PER_CALL * w:
                return n
            grown, last = (now - (last or 0)) / w, now
    finally:
        tracemalloc.stop()
    raise Violation("memory keeps growing: %.0f bytes per call after %d calls (%s)" % (grown, n, what))


def accumulate(pairs, envs=3):
    def fn(ch):
        names = sorted(KINDS)
        if pairs:
            pick = list(ch.pick([(x, y) for i, x in enumerate(names) for y in names[:i]]))  # one choice: cheap to plan
        else:
            c = ch.choose(len(names) + 1)
            pick = names if c == len(names) else [names[c]]
        e = ch.choose(envs)
        LAST[0] = ("history", pick, "envelope %d" % e)
        a = fresh()
        n = _grows([KINDS[k](a, e) for k in pick], ", ".join(pick))
        return "bounded" if n <= 2000 else "bounded after %d calls" % n
    return fn


def c22(tier):
    th = tier == "thorough"
    hs = [Harness("each kind of call", accumulate(False), "%d kinds of calls with arguments never used before (and all of them in rotation) x 3 envelopes, 2000 calls; up to 32000 while memory still grows" % len(KINDS), flat=len(KINDS) + 1)]
    hs.append(Harness("pairs of kinds", accumulate(True, 3 if th else 1), "all pairs of %d kinds of calls alternating x %d envelopes" % (len(KINDS), 3 if th else 1), flat=len(KINDS) * (len(KINDS) - 1) // 2))
    return hs, {"assumptions": ["memory is what tracemalloc sees: Python objects, strings and buffers", "caches of a fixed size are allowed if they fill up within 32000 calls"]}


# ------------------------------------------------------------------ C23

def effort(fn):
    """(bytecodes executed inside the package, peak of memory allocated meanwhile)."""
    n = [0]

    def trace(frame, event, arg):
        if event == "call":
            if not frame.f_code.co_filename.startswith(PKG):
                return None
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        elif event == "opcode":
            n[0] += 1
            if n[0] > STEPS:
                raise Violation("more than %d steps" % STEPS)
        return trace
    sys.settrace(trace)
    try:
        fn()
    finally:
        sys.settrace(None)
    tracemalloc.start()
    try:
        fn()
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
    return n[0], peak


STEPS = 30000000
PEAK = 400000


def announced(ch):
    """A length prefix that announces far more than there is, or a maximum far above any message."""
    a = A
    le, lt = ch.pick([("b", 1), ("b", 2), ("b", 3), ("b", 4), ("b", 5), ("bcd", 1), ("bcd", 2), ("bcd", 3), ("bcd", 4), ("ascii", 1), ("ascii", 2), ("ascii", 3), ("ascii", 4), ("ascii", 6), ("ascii", 9), ("cp500", 4), ("cp500", 9), ("b", 0)])
    base = 256 if le == "b" else 100 if le == "bcd" else 10
    top = base ** lt - 1 if lt else 10 ** 10
    de, more = ch.pick((("ascii", {}), ("b", {}), ("b", {"len_count": "nibbles", "left_pad": "0"}), ("utf-16-le", {"len_count": "nibbles"})))
    v = ch.pick([x for x in (5, 99, 255, 1000, 65535, 10 ** 6, 10 ** 7, 2 ** 31, 2 ** 32 - 1, 10 ** 9 - 1, 10 ** 10, top - 1, top) if x <= top])
    below = ch.flag()
    key, e = ch.pick((("2", 0), ("h", 1), ("129", 2)))
    ml = v - 1 if below and lt else v
    if key == "h" and ml <= 0:
        ml = 1
    spec, doc = S.place(key, F(de, le, lt, ml, **more), e)
    ln = b"" if not lt else v.to_bytes(lt, "big") if le == "b" else bytes.fromhex("%0*d" % (2 * lt, v)) if le == "bcd" else ("%0*d" % (lt, v)).encode(le)
    head = b"" if key == "h" else S.envelope_raw(spec, doc, key)
    raw = head + ln + b"12"
    LAST[0] = ("decode", spec, raw)

    def run():
        try:
            a.decode(raw, spec)
        except a.DecodeError:
            return
        raise Violation("truncated field accepted")
    steps, peak = effort(run)
    if steps > 20000:
        raise Violation("%d steps to reject a message of %d bytes that announces %d" % (steps, len(raw), v))
    if peak > PEAK:
        raise Violation("%d bytes of memory to reject a message of %d bytes that announces %d" % (peak, len(raw), v))
    doc = dict(doc)
    doc[key] = "12"
    LAST[0] = ("encode", spec, doc)

    def run2():
        try:
            a.encode(dict(doc), spec)
        except a.EncodeError:
            pass
    steps, peak = effort(run2)
    if steps > 20000 or peak > PEAK:
        raise Violation("%d steps and %d bytes of memory to encode 2 characters with a maximum of %d" % (steps, peak, ml))
    return "small"


def families():
    """name -> function(n) giving a call whose input has size about n."""
    out = {}

    def one(fs, value):
        def enc(n):
            spec, doc = S.place("2", dict(fs, max_len=10 ** 8), 0)
            doc["2"] = value * n
            return lambda: A.encode(dict(doc), spec)

        def dec(n):
            spec, doc = S.place("2", dict(fs, max_len=10 ** 8), 0)
            doc["2"] = value * n
            raw = ref.encode(doc, spec)[0]
            return lambda: A.decode(raw, spec)
        return enc, dec
    for name, fs, value in (("text", F("utf-8", "ascii", 8), "é1"), ("binary", F("b", "b", 4), "0f"), ("nibbles", F("b", "bcd", 4, len_count="nibbles", left_pad="0"), "1a"), ("utf-16", F("utf-16-le", "b", 4), "x")):
        out["encode " + name], out["decode " + name] = one(fs, value)

    def fields(n):
        spec, doc = S.env(0)
        ks = [k for k in range(2, 193) if k != 65][:max(n // 16, 1)]
        for k in ks:
            spec[str(k)] = F("ascii", "ascii", 2, 99)
            doc[str(k)] = "v" * 10
        return spec, doc
    out["encode fields"] = lambda n: (lambda s, d: lambda: A.encode(dict(d), s))(*fields(n))
    out["decode fields"] = lambda n: (lambda s, d: (lambda r: lambda: A.decode(r, s))(ref.encode(d, s)[0]))(*fields(n))
    out["pp fields"] = lambda n: (lambda s, d: lambda: A.pp(d, s, 20, Null(), 40))(*fields(n))

    def trailing(n):
        spec, doc = S.env(0)
        raw = ref.encode(doc, spec)[0] + b"\x00" * n

        def run():
            try:
                A.decode(raw, spec)
            except A.DecodeError:
                pass
        return run
    out["decode extra data"] = trailing

    def junk_keys(n):
        spec, doc = S.env(0)
        for i in range(n):
            doc["x%d" % i] = "y"
        return lambda: A.encode(dict(doc), spec)
    out["encode other keys"] = junk_keys

    def bad_keys(n):
        spec, doc = S.env(0)
        for i in range(n):
            doc[str(200 + i)] = "y"

        def run():
            try:
                A.encode(dict(doc), spec)
            except A.EncodeError:
                pass
        return run
    out["encode bad keys"] = bad_keys
    # the same with one mistake at the far end, or at the front: rejecting must not cost more than accepting
    def broken(fs, good, wrong, front):
        def enc(n):
            spec, doc = S.place("2", dict(fs, max_len=10 ** 8), 0)
            doc["2"] = wrong + good * n if front else good * n + wrong

            def run():
                try:
                    A.encode(dict(doc), spec)
                except A.EncodeError:
                    pass
            return run

        def dec(n):
            spec, doc = S.place("2", dict(fs, max_len=10 ** 8, len_enc="b", len_type=4), 0)
            head = S.envelope_raw(spec, doc, "2")
            body = wrong + good * n if front else good * n + wrong
            body = bytes(len(body)) if fs["data_enc"] == "b" else body.encode("utf-8", "surrogatepass")
            raw = head + (len(body) * (2 if fs.get("len_count") == "nibbles" else 1) - (fs["data_enc"] == "b")).to_bytes(4, "big") + body

            def run():
                try:
                    A.decode(raw, spec)
                except A.DecodeError:
                    pass
            return run
        return enc, dec
    for where in (0, 1):
        for name, fs, good, wrong in (("hex", F("b", "b", 4), "0a", "g"), ("hex digit", F("b", "b", 4), "0A", "G0"), ("nibbles", F("b", "b", 4, len_count="nibbles", left_pad="1"), "12", "x"), ("nibbles, odd", F("b", "b", 4, len_count="nibbles"), "12", "1"),
                                      ("ascii", F("ascii", "b", 4), "a1", "\u20ac"), ("utf-8", F("utf-8", "b", 4), "é ", "\ud800"), ("spaces", F("ascii", "b", 4), "  ", "é"), ("digits", F("ascii", "b", 4), "00", "é")):
            out["encode wrong %s %d" % (name, where)], out["decode wrong %s %d" % (name, where)] = broken(fs, good, wrong, where)

    def digits(good, n):
        spec, doc = S.env(0)
        doc[good * n] = "x"
        doc["k" + good * n] = "y"

        def run():
            try:
                A.encode(dict(doc), spec)
            except A.EncodeError:
                pass
        return run
    for name, c in (("zeros", "0"), ("nines", "9"), ("letters", "a"), ("other digits", "\u0663")):
        out["encode key of %s" % name] = lambda n, c=c: digits(c, n)

    def prefix(n):
        spec, doc = S.place("2", F("ascii", "ascii", n, 10 ** 9), 0)
        head = S.envelope_raw(spec, doc, "2")
        raw = head + b"0" * n

        def run():
            for x in (raw, raw[:-1], raw[:-1] + b"x", head + b"x" + raw[len(head) + 1:]):
                try:
                    A.decode(x, spec)
                except A.DecodeError:
                    pass
        return run
    out["decode wide length"] = prefix
    out["pp description"] = lambda n: (lambda s: lambda: A.pp({"t": "0200", "2": "1"}, s, n, Null(), 80))(S.place("2", dict(F("ascii", "ascii", 3, 999), desc="ab " * n), 0)[0])
    for width in (1, 20, 80):
        out["pp text, width %d" % width] = lambda n, w=width: (lambda s: lambda: A.pp({"t": "0200", "2": "a'" * n}, s, 5, Null(), w))(S.place("2", F("ascii", "ascii", 3, 999), 0)[0])
        out["pp bytes, width %d" % width] = lambda n, w=width: (lambda s: lambda: A.pp({"t": {"len": b"", "data": b"0200"}, "2": {"len": b"9", "data": b"\x00'" * n}}, s, 5, Null(), w))(S.place("2", F("ascii", "ascii", 3, 999), 0)[0])
    return out


FAMILIES = families()


def growth(top):
    def fn(ch):
        name = ch.pick(sorted(FAMILIES))
        n = 1 << ch.upto(top, 6)
        LAST[0] = ("sizes", name, n, 2 * n, 4 * n)
        e = [effort(FAMILIES[name](k * n)) for k in (1, 2, 4)]
        for what, (x, y, z), slack in (("steps", [s for s, _ in e], 3000), ("bytes of memory", [p for _, p in e], 60000)):
            if z - y > 3 * (y - x) + slack:
                raise Violation("%s: %s grow faster than the input: %d, %d, %d for sizes %d, %d, %d" % (name, what, x, y, z, n, 2 * n, 4 * n))
        engine._beat[0] += 1
        return "linear"
    return fn


def large(ch):
    """Megabytes: anything that grows with the square of the size is caught by the limit on CPU time per call."""
    name = ch.pick(sorted(FAMILIES))
    n = 1000000
    LAST[0] = ("size", name, n)
    call = FAMILIES[name](n)
    engine._beat[0] += 1
    call()
    return "in time"


def c23(tier):
    th = tier == "thorough"
    hs = [Harness("announced lengths", announced, "18 length encodings up to 5 bytes / 9 digits x 4 data encodings x up to 13 announced lengths and maxima to 10**10 x header and two fields, two bytes of data: bounded steps and memory, in decode and encode", split=300),
          Harness("growth", growth(13 if th else 9), "%d families of inputs x sizes n, 2n, 4n for n = 64..%d: steps (bytecodes) and peak memory grow at most linearly" % (len(FAMILIES), 1 << (13 if th else 9)), split=300),
          Harness("large inputs", large, "the same families at 1-3 million bytes within the CPU limit of a call", split=300, depth=1, describe=False)]
    return hs, {"assumptions": ["work is counted in bytecodes of the package and in memory seen by tracemalloc; time spent inside built-in calls is only bounded by the CPU limit on large inputs"]}


PROPS = {"C22": c22, "C23": c23}
