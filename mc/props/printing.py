"""C16, C17: the pretty printer."""
import ast
import collections
import io
import json
import sys
import types

from .. import judges as J
from .. import ref
from .. import spaces as S
from ..api import std as A
from ..engine import Harness, Skip, Violation
from ..spaces import F


class Out:
    """A stream that offers write() only, as documented."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        if type(s) is not str:
            raise Violation("pp wrote %s to a text stream" % type(s).__name__)
        self.parts.append(s)
        return len(s)

    def text(self):
        return "".join(self.parts)


class Trap:
    def write(self, s):
        raise Violation("pp wrote to sys.stdout although a stream was given", {"text": s})


def run_pp(doc, spec, *a, **k):
    out = Out()
    old = sys.stdout
    sys.stdout = Trap()
    try:
        r = A.pp(doc, spec, *a, stream=out, **k)
    finally:
        sys.stdout = old
    if r is not None:
        raise Violation("pp returned %r" % (r,))
    return out.text()


CH = ["a", "'", '"', "\\", "\n", "é", "\u200b", "\U0001f600", "\x00", "\ud800"]
BY = [b"a", b"'", b'"', b"\\", b"\x00", b"\n", b"\xff"]
DESCS = ["", "D", "Primary Account Number", "a: b", "x" * 40, "'q'", "é\u200b", "two  words ", "{0} %s", "tab\there"]
SPEC = {"h": F(ml=0), "t": F(ml=4), "p": F("b", ml=8), "1": F("b", ml=8)}
for _f in list(range(2, 193)):
    SPEC[str(_f)] = F(ml=9)
for _k, _d in (("h", "Header"), ("t", "Message Type"), ("p", "Bitmap, Primary"), ("1", "Bitmap, Secondary"), ("2", "Primary Account Number (PAN)")):
    SPEC[_k] = dict(SPEC[_k], desc=_d)


def value(ch, th):
    """A printable value: short over a nasty alphabet, or long and uniform."""
    kind = ch.choose(4)
    if kind == 0:
        n = ch.upto(4 if th else 3)
        return "".join([ch.pick(CH) for _ in range(n)])
    if kind == 1:
        n = ch.upto(5 if th else 4)
        return b"".join([ch.pick(BY) for _ in range(n)])
    n = ch.pick(LENS_T if th else LENS_Q)
    if kind == 2:
        return ch.pick((S.TEXT[:n], "a" * n, ("'\"" * n)[:n], "\n" * n))
    return ch.pick((S.TEXT[:n].encode(), b"\x00" * n, (b"a\x00'" * n)[:n], (b"'\"" * n)[:n], bytes((i * 37) & 255 for i in range(n))))


LENS_Q = [4, 5, 7, 8, 16, 39, 40, 41, 42, 43, 44, 45, 46, 47, 60, 73, 74, 75, 76, 80, 88, 132, 200]
LENS_T = list(range(2, 170)) + [200, 255, 256, 500, 999]
WIDTHS_Q = [80, 0, 1, -1, 8, 9, 10, 11, 12, 13, 20, 38, 39, 40, 41, 42, 60, 81, 1000]
DW_Q = [30, 0, 1, 40]


def parse_literals(text):
    return ast.literal_eval("(" + text + ")")


def check_content(text, key, head, value):
    """C16 for one entry whose head (key, description, colon) is known."""
    if not text.startswith(head) or not text.endswith("\n"):
        raise Violation("entry %s does not start with its key and description" % key, {"text": text, "expected": head})
    body = text[len(head):]
    if isinstance(value, dict):
        ln, data = value["len"], value["data"]
        if ln:
            if not body.startswith(repr(ln) + " "):
                raise Violation("entry %s does not start with its encoded length" % key, {"text": text})
            body = body[len(repr(ln)) + 1:]
        value = data
    try:
        got = parse_literals(body)
    except Exception as e:
        raise Violation("entry %s is not a sequence of literals: %s" % (key, e), {"text": text}) from None
    if got != value or type(got) is not type(value):
        raise Violation("entry %s does not spell its value" % key, {"text": text, "got": got, "expected": value})


def head_of(key, desc, dw):
    d = (" " + desc[:dw].ljust(dw)) if dw > 0 else ""
    return key.ljust(3) + d + ": "


def single(th, layout):
    def fn(ch):
        if th:
            key, desc = ch.pick(("2", "128", "t", "p", "99")), ch.pick(DESCS)
        else:
            key, desc = ch.pick((("2", DESCS[2]), ("128", DESCS[3]), ("t", DESCS[5])))
        v = value(ch, th)
        shape = ch.choose(3) if isinstance(v, bytes) else 0
        if shape:
            v = {"len": (b"", b"10", b"\x00\x01'")[shape], "data": v}
        elif isinstance(v, bytes):
            v = {"len": b"", "data": v}
        dw = ch.pick(DW_Q if not th else DW_Q + [-3, 10, 2, 3, 29, 31])
        lw = ch.pick(WIDTHS_Q if not th else sorted(set(WIDTHS_Q + list(range(-2, 90, 1)))))
        spec = dict(SPEC)
        spec[key] = dict(spec[key], desc=desc)
        doc = {key: v}
        J.LAST[0] = ("pp", doc, {"desc": desc, "desc_width": dw, "line_width": lw})
        text = run_pp(doc, spec, dw, line_width=lw)
        if not layout:
            check_content(text, key, head_of(key, desc, dw), v)
            if doc != {key: v}:
                raise Violation("pp changed its argument")
            return "lines: %d" % min(9, text.count("\n"))
        want = ref.pp(doc, spec, dw, lw)
        if text != want:
            raise Violation("layout differs", {"got": text, "expected": want})
        laws(text, key, desc, dw, lw, v)
        return "lines: %d" % min(9, text.count("\n"))
    return fn


def laws(text, key, desc, dw, lw, v):
    """C17 without the reference printer."""
    head = head_of(key, desc, dw)
    if not text.startswith(head):
        raise Violation("columns are wrong", {"text": text, "expected": head})
    prefix = len(head)
    obj = v
    if isinstance(v, dict):
        if v["len"]:
            prefix += len(repr(v["len"])) + 1
        obj = v["data"]
    lines = text[:-1].split("\n")
    room = lw - prefix
    one = repr(obj)
    if len(one) <= room and len(lines) != 1:
        raise Violation("a value that fits is folded", {"text": text})
    if len(lines) > 1:
        if any(not ln.startswith(" " * prefix) or ln[prefix:prefix + 1] in ("", " ") for ln in lines[1:]):
            raise Violation("continuation lines are not aligned", {"text": text})
        chunks = [ast.literal_eval(ln[prefix:]) for ln in lines]
        for c in chunks:
            if isinstance(c, str):
                if len(c) + 2 > room and len(c) > 1:
                    raise Violation("line too long", {"text": text})
            elif len(repr(c)) > room and len(c) > 1:
                raise Violation("line too long", {"text": text})
        for c, d in zip(chunks, chunks[1:]):
            nxt = c + d[:1]
            fits = len(nxt) + 2 <= room if isinstance(c, str) else len(repr(nxt)) <= room
            if fits:
                raise Violation("a line is broken although more fits", {"text": text})


KEYS = ["h", "t", "p", "1", "2", "3", "10", "64", "65", "99", "100", "128", "129", "192"]


def many(th, layout):
    """Which entries are printed, in which order, with odd keys around."""
    odd = ["bm", "x1", "", "2x", "-1", 5, None, ("2",), "1.5", " 2"]

    def fn(ch):
        if th:
            mask = ch.choose(1 << 12)
            keys = [k for i, k in enumerate(KEYS[:12]) if mask >> i & 1]
        else:
            mask = ch.choose(1 << 9)
            keys = [k for i, k in enumerate(("h", "t", "p", "1", "2", "10", "3", "100", "192")) if mask >> i & 1]
        hmax = ch.pick((0, 5, -1))
        order = ch.choose(3)
        enc = ch.flag()
        o = ch.choose(len(odd) + 1)
        dw, lw = ch.pick(((30, 80), (0, 10)))
        keys = keys[::-1] if order == 1 else keys[1::2] + keys[::2] if order == 2 else keys
        doc = {}
        for i, k in enumerate(keys):
            v = "v%s '%s" % (k, "x" * (i * 9))
            doc[k] = {"len": str(i).encode() if i % 2 else b"", "data": v.encode()} if enc else v
            if o and i == 1:
                doc[odd[o - 1]] = "odd"
        if o:
            doc.setdefault(odd[o - 1], "odd")
        spec = dict(SPEC, h=dict(SPEC["h"], max_len=hmax))
        J.LAST[0] = ("pp", doc, {"h max_len": hmax, "desc_width": dw, "line_width": lw})
        before = list(doc.items())
        sbefore = json.dumps(spec)
        text = run_pp(doc, spec, dw, line_width=lw)
        if list(doc.items()) != before or json.dumps(spec) != sbefore:
            raise Violation("pp changed its arguments")
        if layout:
            want = ref.pp(doc, spec, dw, lw)
            if text != want:
                raise Violation("layout differs", {"got": text, "expected": want})
            return "entries: %d" % len(keys)
        want = ref.pp_entries(doc, spec)
        entries = split_entries(text)
        got = [e[:3].rstrip() for e in entries]
        if got != want:
            raise Violation("wrong entries", {"got": got, "expected": want, "text": text})
        for e, k in zip(entries, want):
            check_content(e, k, head_of(k, spec[k]["desc"], dw), doc[k])
        return "entries: %d" % len(keys)
    return fn


def split_entries(text):
    out = []
    for line in text.split("\n")[:-1]:
        if out and line.startswith("   "):
            out[-1].append(line + "\n")
        else:
            out.append([line + "\n"])
    return ["".join(e) for e in out]


def messages(layout):
    """Real messages, decoded and encoded dictionaries, every description and line width."""
    def fn(ch):
        spec, doc, raw = ch.pick(S.bases())
        spec = {k: dict(v, desc="Field %s description" % k) for k, v in spec.items()}
        dec, enc = A.decode(raw, spec)
        d = enc if ch.flag() else dec
        dw = ch.pick((30, 0, 5, 21, 60))
        lw = ch.pick((80, 40, 30, 20, 12, 0, 200))
        J.LAST[0] = ("pp", d, {"desc_width": dw, "line_width": lw})
        text = run_pp(d, spec, dw, line_width=lw)
        if layout:
            want = ref.pp(d, spec, dw, lw)
            if text != want:
                raise Violation("layout differs", {"got": text, "expected": want})
            return "laid out"
        order = [k for k in d if k not in "htp"]
        want = [k for k in ("h", "t", "p") if k in d] + sorted(order, key=int)
        entries = split_entries(text)
        if [e[:3].rstrip() for e in entries] != want:
            raise Violation("wrong entries", {"text": text, "expected": want})
        for e, k in zip(entries, want):
            check_content(e, k, head_of(k, spec[k]["desc"], dw), d[k])
        return "printed"
    return fn


def lengths(layout):
    """Every one-byte encoded length, and longer ones, before empty, short and folded data."""
    def fn(ch):
        n = ch.choose(4)
        if n <= 1:
            ln = bytes([ch.choose(256)] if n else [])
        else:
            ln = bytes([ch.pick((0, 1, 39, 34, 48, 92, 255)) for _ in range(n)])
        data = ch.pick((b"", b"\x00", b"x", b"0" * 9, b"y'" * 20, b"\x00" * 30))
        dw, lw = ch.pick(((0, 80), (30, 80), (5, 20), (0, 0)))
        key = ch.pick(("2", "128", "h"))
        doc = {key: {"len": ln, "data": data}}
        spec = dict(SPEC, h=dict(SPEC["h"], max_len=9))
        J.LAST[0] = ("pp", doc, {"desc_width": dw, "line_width": lw})
        text = run_pp(doc, spec, dw, line_width=lw)
        check_content(text, key, head_of(key, spec[key]["desc"], dw), doc[key])
        if layout and text != ref.pp(doc, spec, dw, lw):
            raise Violation("layout differs", {"got": text, "expected": ref.pp(doc, spec, dw, lw)})
        return "lines: %d" % min(9, text.count("\n"))
    return fn


def streams(ch):
    """Where the text goes: default stream at call time, given streams (even falsy ones), repeated calls."""
    doc = {"t": "0200", "2": "x" * 100}
    A_ = A
    first, second, other = io.StringIO(), io.StringIO(), io.StringIO()

    class Falsy(io.StringIO):
        def __bool__(self):
            return False

        def __len__(self):
            return 0
    want = ref.pp(doc, SPEC)
    how = ch.choose(6)
    J.LAST[0] = ("pp stream", how)
    old = sys.stdout
    try:
        sys.stdout = first
        if how == 0:
            A_.pp(doc, SPEC)
            sys.stdout = second
            A_.pp(doc, SPEC)
            exp = (want, want, "")
        elif how == 1:
            A_.pp(doc, SPEC, stream=other)
            exp = ("", "", want)
        elif how == 2:
            other = Falsy()
            A_.pp(doc, SPEC, stream=other)
            exp = ("", "", want)
        elif how == 3:
            A_.pp(doc, SPEC, 30, other, 80)
            A_.pp(doc, SPEC)
            exp = (want, "", want)
        elif how == 4:
            A_.pp(doc, SPEC, stream=None)
            A_.pp({}, SPEC)
            exp = (want, "", "")
        else:
            A_.pp(doc, SPEC, 30, other)
            A_.pp(doc, SPEC, line_width=80, stream=other, desc_width=30)
            exp = ("", "", want * 2)
    finally:
        sys.stdout = old
    got = (first.getvalue(), second.getvalue(), other.getvalue())
    if got != exp:
        raise Violation("text went to the wrong stream", {"got": got, "expected": exp})
    return "stream %d" % how


STREAM_VALUES = [{"t": "0200", "2": "x" * 100}, {"t": "0200", "2": "é€\u4e2d\U0001f600'\"\\" * 12}, {"t": {"len": b"", "data": b"0200"}, "2": {"len": b"99", "data": bytes(range(99))}}, {}]


def stream_kinds(ch):
    """The text does not depend on what kind of stream it goes to."""
    doc = ch.pick(STREAM_VALUES)
    attrs = {}
    for name, values in (("isatty", (None, True, False)), ("encoding", (None, "ascii", "cp500", "UTF-8")), ("name", (None, "<stdout>")), ("line_buffering", (None, True)), ("returns", ("n", None, 1))):
        v = ch.pick(values)
        if v is not None or name == "returns":
            attrs[name] = v
    full = ch.flag()
    via = ch.choose(2)
    J.LAST[0] = ("pp to a stream with", attrs, doc)
    parts = []
    misuse = []

    class Stream(io.TextIOBase if full else object):
        def write(self, s):
            parts.append(s)
            return len(s) if attrs["returns"] == "n" else attrs["returns"]

        def flush(self):
            pass

    def forbidden(name):
        def f(self, *a):
            misuse.append(name)
        return f
    for name in ("close", "seek", "truncate", "read", "readline", "detach", "reconfigure"):
        setattr(Stream, name, forbidden(name))
    if "isatty" in attrs:
        Stream.isatty = lambda self: attrs["isatty"]
    if "encoding" in attrs:
        Stream.encoding, Stream.errors = attrs["encoding"], "strict"
    for k in ("name", "line_buffering"):
        if k in attrs:
            setattr(Stream, k, attrs[k])
    out = Stream()
    dw, lw = ch.pick(((30, 80), (0, 20)))
    old = sys.stdout
    sys.stdout = out if via else Trap()
    try:
        A.pp(doc, SPEC, dw, None if via else out, lw)
    finally:
        sys.stdout = old
    text, used = "".join(parts), list(misuse)
    if text != ref.pp(doc, SPEC, dw, lw):
        raise Violation("the text depends on the kind of stream", {"got": text, "expected": ref.pp(doc, SPEC, dw, lw)})
    if used:
        raise Violation("pp did more than write to the stream", {"calls": used})
    return "printed"


def defaults(ch):
    """Default widths are 30 and 80."""
    n = ch.upto(100)
    d = {"2": S.TEXT[:n] if ch.flag() else {"len": b"%d" % n, "data": S.TEXT[:n].encode()}}
    out = Out()
    A.pp(d, SPEC, stream=out)
    want = ref.pp(d, SPEC, 30, 80)
    if out.text() != want:
        raise Violation("default layout differs", {"got": out.text(), "expected": want})
    return "default"


def shipped(layout):
    def fn(ch):
        spec = (A.default, A.default_ascii)[ch.choose(2)]
        key = ch.pick(["t", "p", "1"] + [str(f) for f in range(2, 129)])
        n = ch.pick((0, 1, 44, 45, 100))
        v = {"len": b"99", "data": S.TEXT[:n].encode()} if ch.flag() else S.TEXT[:n]
        dw = ch.pick((30, 0, 12))
        J.LAST[0] = ("pp", {key: v}, dw)
        text = run_pp({key: v}, spec, dw)
        if layout:
            if text != ref.pp({key: v}, spec, dw):
                raise Violation("layout differs", {"got": text})
        else:
            check_content(text, key, head_of(key, spec[key]["desc"], dw), v)
        return "printed"
    return fn


def numbers(layout):
    """Every field number: what is printed does not depend on which field it is."""
    from .codec import _TABLE, NUM_MORE, NUM_TEXT

    def fn(ch):
        key = ch.pick(["h", "t", "p", "1"] + [str(f) for f in range(2, 193)])
        more = ch.flag()
        text = ch.pick(NUM_MORE if more else NUM_TEXT)
        v = {"len": b"%02d" % len(text), "data": text.encode("latin-1")} if ch.flag() else text
        spec = dict(SPEC, h=dict(SPEC["h"], max_len=9))
        fs = dict(spec[key])
        how = 1 if more else ch.choose(3)
        fs["desc"] = ("field", _TABLE.get(key, _TABLE["2"])["desc"], "")[how]
        if how:
            fs.update(data_enc="b" if how == 2 else "cp500", len_type=2, len_enc="bcd", max_len=9)
        spec[key] = fs
        doc = {key: v}
        dw, lw = (30, 80) if len(text) % 2 else (3, 33)
        J.LAST[0] = ("pp", doc, {"spec": fs, "desc_width": dw, "line_width": lw})
        out = run_pp(doc, spec, dw, line_width=lw)
        check_content(out, key, head_of(key, fs["desc"], dw), v)
        if layout and out != ref.pp(doc, spec, dw, lw):
            raise Violation("layout differs", {"got": out, "expected": ref.pp(doc, spec, dw, lw)})
        return "printed"
    return fn


def long_values(layout):
    """Values of thousands of lines: nothing is cut short, however long."""
    def fn(ch):
        lw = ch.pick((80, 0, 11, 20, 40, 200, 5000))
        dw = ch.pick((30, 0))
        n = ch.pick((255, 256, 500, 511, 512, 998, 999, 1000, 1001, 1024, 1999, 2047, 2048, 3000, 4095, 4096, 4097, 5000, 8192, 9999, 10000) + ((16384, 32767, 65535, 65536, 70001, 100000) if lw > 30 or th_[0] else ()))
        kind = ch.choose(4)
        if kind > 1 and n * lw > 10 ** 7:
            raise Skip()
        v = (S.TEXT[:n], ("'\"\n\\\xe9" * n)[:n], S.TEXT[:n].encode(), bytes((i * 37 + i // 256) & 255 for i in range(n)))[kind]
        if kind > 1:
            v = {"len": b"" if n % 2 else b"%06d" % n, "data": v}
        doc = {"2": v, "3": "end"}
        J.LAST[0] = ("pp", doc, {"desc_width": dw, "line_width": lw})
        text = run_pp(doc, SPEC, dw, line_width=lw)
        want = ref.pp(doc, SPEC, dw, lw)
        if layout:
            if text != want:
                raise Violation("layout differs", {"got": text[:2000], "expected": want[:2000], "at": next((i for i, (a, b) in enumerate(zip(text, want)) if a != b), min(len(text), len(want)))})
            return "lines: 1e%d" % len(str(text.count("\n")))
        entries = split_entries(text)
        if [e[:3].rstrip() for e in entries] != ["2", "3"]:
            raise Violation("wrong entries", {"text": text[-2000:]})
        for e, k in zip(entries, ("2", "3")):
            check_content(e, k, head_of(k, SPEC[k]["desc"], dw), doc[k])
        return "lines: 1e%d" % len(str(text.count("\n")))
    th_ = [False]

    def long_(th):
        th_[0] = th
        return fn
    return long_


B5 = "21 lengths 255-10000 (to 100000 with wide lines; thorough: with all) x 4 contents x 7 line widths x with and without descriptions"
B4 = "every key (header, type, bitmaps, 2-192) x 34 texts (card, track, amount, date, TLV data; whole alphabets) and every first and last character, digits of every length to 45, x decoded/encoded x 3 entries of the specification"
DESCS2 = DESCS + ["%", "{", "}", "{desc}", "%(x)s", "\\n", "a" * 29, "b" * 30, "c" * 31, "trailing ", " leading", "ab\u0301cd\u4e2d\u6587", "x" * 100, "0"]


def descriptions(layout):
    """Every awkward description, cut and padded at every width."""
    def fn(ch):
        key, desc, dw = ch.pick(("2", "12", "128", "t", "p", "h")), ch.pick(DESCS2), ch.choose(46) - 3
        doc = {key: ch.pick(("", "v", "w" * 60, {"len": b"02", "data": b"zz"}))}
        spec = dict(SPEC, h=dict(SPEC["h"], max_len=9))
        spec[key] = dict(spec[key], desc=desc)
        lw = ch.pick((80, 30))
        J.LAST[0] = ("pp", doc, {"desc": desc, "desc_width": dw, "line_width": lw})
        text = run_pp(doc, spec, dw, line_width=lw)
        check_content(text, key, head_of(key, desc, dw), doc[key])
        if layout and text != ref.pp(doc, spec, dw, lw):
            raise Violation("layout differs", {"got": text, "expected": ref.pp(doc, spec, dw, lw)})
        return "printed"
    return fn


def kinds(ch):
    """The text does not depend on what kind of dictionary, text or mapping the arguments are."""
    n = ch.pick((0, 1, 2, 9, 31, 32, 33, 34, 35, 60, 200))
    v = S.TEXT[:n] if ch.choose(2) else ("'\"\n\\\xe9" * n)[:n]
    enc = ch.choose(2)
    doc = {"h": v, "t": v, "p": v, "1": v, "2": v, "12": "x", "100": v, "192": v}
    if enc:
        doc = {k: {"len": b"" if i % 2 else b"%03d" % n, "data": x.encode("latin-1")} for i, (k, x) in enumerate(doc.items())}
    dw, lw = ch.pick((30, 0, 7)), ch.pick((80, 20, 41))
    hm = ch.pick((0, 9))
    spec = dict(SPEC, h=dict(SPEC["h"], max_len=hm))
    want = ref.pp(doc, spec, dw, lw)
    kd, ks = ch.choose(8), ch.choose(6)
    sub = (lambda x: J.SubStr(x)) if not enc else (lambda x: x)
    one = (dict, collections.OrderedDict, lambda d: collections.defaultdict(str, d), lambda d: collections.ChainMap(d, {}), types.MappingProxyType, J.OnlyMapping,
           lambda d: {J.SubStr(k): sub(x) for k, x in d.items()}, lambda d: {k: (SubDict(x) if enc else x) for k, x in d.items()})[kd]
    given = one(doc)
    sp = (lambda d: {k: dict(x) for k, x in d.items()}, lambda d: types.MappingProxyType({k: types.MappingProxyType(x) for k, x in d.items()}), J.only_mapping, lambda d: collections.OrderedDict((k, collections.OrderedDict(x)) for k, x in d.items()),
          lambda d: {J.SubStr(k): {J.SubStr(a): b for a, b in x.items()} for k, x in d.items()}, lambda d: collections.ChainMap({"2": dict(d["2"])}, d))[ks](spec)
    J.LAST[0] = ("pp", doc, {"kind of dictionary": kd, "kind of specification": ks, "desc_width": dw, "line_width": lw})
    text = run_pp(given, sp, J.SubInt(dw) if n % 2 else dw, line_width=J.SubInt(lw) if n % 2 else lw)
    if text != want:
        raise Violation("another kind of argument is printed differently", {"got": text, "expected": want})
    if dict(given) != doc or list(given) != list(doc):
        raise Violation("pp changed the dictionary", {"got": dict(given)})
    if {k: dict(x) for k, x in sp.items()} != spec:
        raise Violation("pp changed the specification", {})
    return "kind %d" % kd


class SubDict(dict):
    pass


B6 = "8 kinds of dictionaries (plain, ordered, defaulting, chained, read-only, mappings only, str subclasses as keys and values, dict subclasses inside) x 6 kinds of specifications x 11 lengths x 2 contents x decoded/encoded x 3 x 3 widths x header"
B3 = "24 descriptions (format characters, exact widths, non-ASCII) x description widths -3..42 x 6 keys x 4 values x 2 line widths"


def nodesc(ch):
    """Specifications without descriptions, printed without descriptions."""
    spec = {k: {a: b for a, b in v.items() if a != "desc"} for k, v in SPEC.items()}
    dw = ch.pick((0, -1, -100))
    v = ch.pick(("", "abc", "x" * 200))
    doc = {"t": v, "2": v, "192": {"len": b"1", "data": v.encode()}}
    text = run_pp(doc, spec, dw)
    if text != ref.pp(doc, spec, dw):
        raise Violation("layout differs", {"got": text})
    return "printed"


B1 = "3 key/description pairs (thorough 5 x 10) x {all strings to length 3 (4) over 10 characters, all bytes to length 4 (5) over 7 values, 23 (173) longer lengths x 9 contents} x 3 length parts x 4 (10) description widths x 19 (100) line widths"
B2 = "all subsets of 9 (12) keys x 3 insertion orders x decoded/encoded x 3 header settings x 10 odd keys x 2 widths"


def c16(tier):
    th = tier == "thorough"
    hs = [Harness("single/content", single(th, False), B1), Harness("many/content", many(th, False), B2), Harness("messages/content", messages(False), "60 messages x decoded/encoded x 5 x 7 widths"),
          Harness("lengths/content", lengths(False), "every encoded length of one byte and 7-value alphabets to three bytes x 6 data x 4 widths x 3 keys"), Harness("streams", streams, "6 ways of choosing the stream", split=1),
          Harness("kinds of streams", stream_kinds, "4 dictionaries x streams with or without isatty, encoding, name, line buffering, short or missing write counts, full or minimal interface, given or as sys.stdout x 2 widths"), Harness("descriptions/content", descriptions(False), B3), Harness("numbers/content", numbers(False), B4), Harness("long values/content", long_values(False)(th), B5), Harness("kinds of arguments", kinds, B6), Harness("shipped/content", shipped(False), "every entry of both shipped specifications")]
    return hs, {"assumptions": ["values are str, or dictionaries of bytes, as produced by encode and decode", "numeric keys are in the specification"]}


def c17(tier):
    th = tier == "thorough"
    hs = [Harness("single/layout", single(th, True), B1), Harness("many/layout", many(th, True), B2), Harness("messages/layout", messages(True), "60 messages x decoded/encoded x 5 x 7 widths"),
          Harness("lengths/layout", lengths(True), "every encoded length of one byte and 7-value alphabets to three bytes x 6 data x 4 widths x 3 keys"), Harness("defaults", defaults, "lengths 0-100 with default widths"), Harness("descriptions/layout", descriptions(True), B3), Harness("numbers/layout", numbers(True), B4), Harness("long values/layout", long_values(True)(th), B5), Harness("kinds of arguments", kinds, B6), Harness("shipped/layout", shipped(True), "every entry of both shipped specifications"),
          Harness("nodesc", nodesc, "specifications without descriptions")]
    return hs, {"assumptions": ["values are str, or dictionaries of bytes, as produced by encode and decode", "numeric keys are in the specification"]}


PROPS = {"C16": c16, "C17": c17}
