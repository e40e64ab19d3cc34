"""C11: edit/encode/decode cycles on one dictionary.  C12: every call depends only on its arguments."""
import collections
import copy
import json

from .. import judges as J
from .. import ref
from .. import spaces as S
from ..api import fresh
from ..api import std as A
from ..engine import LAST, Bfs, Harness, Skip, Violation
from ..spaces import F

# ------------------------------------------------------------------ C11

class Missing(dict):
    def __missing__(self, k):
        return "0200"


class Setting(dict):
    def __missing__(self, k):
        self[k] = "x"
        return "x"


class Plain(dict):
    pass


DICTS = {
    "dict": dict,
    "OrderedDict": collections.OrderedDict,
    "defaultdict": lambda d: collections.defaultdict(str, d),
    "defaultdict with a value": lambda d: collections.defaultdict(lambda: "0200", d),
    "__missing__": Missing,
    "__missing__ that sets": Setting,
    "subclass": Plain,
}
FAULTS = (None, ("2", "x" * 99), ("66", 5), ("91", "y"), ("500", "y"), ("03", "y"))


def kinds_of_dicts(ch):
    """Only the fields in the dictionary count, whatever it answers for the others; none are added."""
    spec = ch.pick(tuple(SPECS.values()))
    d0 = {}
    for k, v in (("h", "H"), ("t", "0210")):
        if ch.flag():
            d0[k] = v
    m = ch.choose(8)
    for i, (k, v) in enumerate((("2", "1"), ("66", "y"), ("192", "zz"))):
        if m >> i & 1:
            d0[k] = v
    stale = ch.flag()
    if stale:
        d0.update({"p": "FFFFFFFFFFFFFFFF", "1": "8000000000000001", "65": "x"})
    fault = ch.pick(FAULTS)
    if fault:
        d0[fault[0]] = fault[1]
    name = ch.pick(sorted(DICTS))
    d = DICTS[name](d0)
    outs = []
    for _ in range(2):
        before = fields_of(d)
        LAST[0] = ("encode", spec, dict(d))
        want, wenc, wdoc = J.ref_encode(dict(before), spec)
        got, genc = J.real_encode(d, spec)
        if type(d) is not type(DICTS[name]({})) or fields_of(d) != before or list(fields_of(d)) != list(before):
            raise Violation("encode changed more than the bitmaps of the caller's %s" % name, {"before": before, "after": dict(d)})
        if (genc is None) != isinstance(want, ref.Bad):
            raise Violation("encode of a %s and of a dict with the same items differ" % name, {"got": repr(got), "expected": str(want)})
        if genc is not None:
            if bytes(got) != want or genc != wenc or dict(d) != wdoc:
                raise Violation("encode of a %s and of a dict with the same items differ" % name, {"got": bytes(got), "expected": want, "after": dict(d)})
        outs.append("rejected" if genc is None else "encoded")
        if fault:
            d.pop(fault[0], None)
        d["h"], d["t"] = "H", "0200"
    return ", ".join(outs)


TXT = dict(S.env(0)[0], **{"2": F("ascii", "ascii", 2, 4), "64": F("ascii", ml=1), "66": F("ascii", ml=1), "128": F("b", ml=1), "129": F("b", "b", 1, 3), "192": F("ascii", ml=2)})
BIN = dict(S.env(1)[0], **{"2": F("cp500", "bcd", 1, 4), "64": F("cp500", ml=1), "66": F("utf-8", ml=1), "128": F("b", ml=1), "129": F("b", "ascii", 2, 3), "192": F("ascii", ml=2)})
HDR = dict(S.env(2)[0], **{k: TXT[k] for k in ("2", "64", "66", "128", "129", "192")})
HDR["h"] = F("ascii", "ascii", 1, 4)
BROKEN = {k: v for k, v in TXT.items() if k not in ("1", "129")}
STRICT = dict(TXT, **{"2": F("ascii", ml=3), "66": F("ascii", ml=5)})
SPECS = {"ascii": TXT, "binary": BIN, "header": HDR}
FAILING = {"undefined": BROKEN, "strict": STRICT}


def fields_of(d):
    return {k: v for k, v in d.items() if k not in ("p", "1", "65")}


def cycle(fields, values, junk, order, specs=("ascii", "binary", "header"), start=({"t": "0200"},)):
    def events(state):
        d = dict(state)
        ev = []
        for k in fields:
            for v in values[k]:
                if d.get(k) != v:
                    ev.append(("set", k, v))
            if k in d:
                ev.append(("del", k))
        for k, v in junk:
            if d.get(k) != v:
                ev.append(("set", k, v))
        for s in specs:
            ev += [("encode", s), ("encode+decode", s)]
        ev += [("encode+decode+json", specs[0])]
        ev += [("failing encode", s) for s in FAILING]
        return ev

    def step(state, ev):
        d = dict(state)
        LAST[0] = ("history", list(state), ev)
        if ev[0] == "set":
            d[ev[1]] = ev[2]
            return tuple(d.items()), "edit"
        if ev[0] == "del":
            del d[ev[1]]
            return tuple(d.items()), "edit"
        spec = FAILING.get(ev[1]) or SPECS[ev[1]]
        before = fields_of(d)
        clean = {k: before[k] for k in sorted(before)}
        want, wenc = J.real_encode(dict(clean), spec)
        rwant = J.ref_encode(dict(clean), spec)
        got, genc = J.real_encode(d, spec)
        if fields_of(d) != before:
            raise Violation("encode changed more than the bitmaps of the caller's dictionary", {"before": before, "after": d})
        if (genc is None) != (wenc is None) or (genc is None) != isinstance(rwant[0], ref.Bad):
            raise Violation("encode of a dictionary with a history and of a fresh one differ", {"dict": dict(state), "got": repr(got), "fresh": repr(want)})
        if genc is None:
            return tuple(d.items()), "rejected"
        if bytes(got) != bytes(want) or genc != wenc or bytes(got) != rwant[0]:
            raise Violation("encode of a dictionary with a history and of a fresh one differ", {"dict": dict(state), "got": bytes(got), "fresh": bytes(want), "expected": rwant[0]})
        if d != rwant[2]:
            raise Violation("dictionary after encode is wrong", {"got": d, "expected": rwant[2]})
        if ev[0].startswith("encode+decode"):
            dec, enc = J.real_decode(bytes(got), spec)
            if enc is None:
                raise Violation("encoded message cannot be decoded", {"raw": bytes(got), "error": str(dec)})
            exp = rwant[2] if spec["h"]["max_len"] > 0 else {k: v for k, v in rwant[2].items() if k != "h"}
            if dec != exp:
                raise Violation("decoding the encoded dictionary gives another dictionary", {"got": dec, "expected": exp})
            if ev[0].endswith("json"):
                dec = json.loads(json.dumps(dec))
            return tuple(dec.items()), "decoded"
        return tuple(d.items()), "encoded"

    return events, step, (lambda: [tuple(x.items()) for x in start]), ((lambda s: s) if order else (lambda s: tuple(sorted(s))))


def c11(tier):
    th = tier == "thorough"
    fs = ["h", "t", "2", "66", "129"] + (["64", "128", "192"] if th else ["192"])
    vals = {"h": ("H",), "t": ("0200", "0210"), "2": ("1", "123"), "64": ("x",), "66": ("y", "z"), "128": ("0A",), "129": ("BEEF",), "192": ("zz",)}
    junk = [("p", "FFFFFFFFFFFFFFFF"), ("1", "8000000000000001"), ("65", "8000000000000000")] + ([("p", None), ("1", "")] if th else [])
    ev, step, init, canon = cycle(fs, vals, junk, False)
    hs = [Bfs("cycles", init, ev, step, canon, "fixpoint over all dictionaries reachable by setting/deleting %s, planting stale bitmaps, encoding under 3 specifications, failing encodes, decoding back, JSON" % ", ".join(fs))]
    fs2 = ["2", "66", "129"]
    ev2, step2, init2, canon2 = cycle(fs2, {"2": ("1",), "66": ("y",), "129": ("0A",)}, junk[:3], True, specs=("ascii", "binary") if th else ("ascii",))
    hs.append(Bfs("cycles with key order", init2, ev2, step2, canon2, "fixpoint over dictionaries with their key order: fields 2, 66, 129, stale p/1/65"))
    ev3, step3, init3, canon3 = cycle(["t", "2", "130"] if False else ["t", "2"], {"t": ("0200",), "2": ("1", "12")}, [("p", "FFFFFFFFFFFFFFFF"), ("1", "C000000000000001"), ("65", "x"), ("1", 5), ("65", 0), ("p", b"x")], False)
    hs.append(Bfs("stale bitmaps of any type", init3, ev3, step3, lambda s: tuple(sorted(s, key=repr)), "fixpoint: two fields and stale bitmap entries of several types"))

    # every ordered pair of field sets on one dictionary
    def pairs(ch):
        e = ch.choose(3 if th else 2)
        spec = S.BSPEC[e]
        pool = S.BND[:8]
        a, b = ch.choose(1 << 8) if th else ch.choose(1 << 6), ch.choose(1 << 8) if th else ch.choose(1 << 6)
        d = dict(S.ENVS[e][1])
        back = ch.flag()
        for f in [pool[i] for i in range(8) if a >> i & 1]:
            d[str(f)] = S.fval(f)
        J.enc_vs_ref(spec, d)
        if back:
            d = A.decode(A.encode(d, spec)[0], spec)[0]
        for i in range(8):
            k = str(pool[i])
            if b >> i & 1:
                d[k] = S.fval(pool[i])[::-1]
            else:
                d.pop(k, None)
        before = fields_of(d)
        out = J.enc_vs_ref(spec, d)
        got, _ = A.encode(dict(before), spec)
        got2, _ = A.encode(d, spec)
        if bytes(got) != bytes(got2):
            raise Violation("stale state: second encode differs from a fresh one", {"got": bytes(got2), "fresh": bytes(got)})
        return out

    def within(ch):
        """Field sets that differ inside one bitmap only (also in nothing but which bits are set)."""
        e = ch.choose(3 if th else 2)
        spec = S.BSPEC[e]
        pool = ch.pick(((2, 3, 5, 7, 64), (66, 70, 97, 127, 128), (129, 130, 144, 160, 192), (2, 66, 129, 33, 99)))
        a, b = ch.choose(32), ch.choose(32)
        how = ch.choose(3)  # encode; encode + decode; decode of the second message before encoding the first
        d = dict(S.ENVS[e][1])

        def put(m, rev):
            for i, f in enumerate(pool):
                if m >> i & 1:
                    d[str(f)] = S.fval(f)[::-1] if rev else S.fval(f)
                else:
                    d.pop(str(f), None)
        put(a, False)
        J.enc_vs_ref(spec, d)
        if how == 1:
            d = A.decode(A.encode(d, spec)[0], spec)[0]
        put(b, True)
        before = fields_of(d)
        if how == 2:
            A.decode(ref.encode(dict(before), spec)[0], spec)
        LAST[0] = ("encode", spec, dict(d))
        out = J.enc_vs_ref(spec, d)
        got2, _ = A.encode(d, spec)
        if bytes(got2) != ref.encode(dict(before), spec)[0]:
            raise Violation("stale state: second encode differs from a fresh one", {"got": bytes(got2)})
        return out
    hs.append(Harness("kinds of dictionaries", kinds_of_dicts, "7 kinds of dict subclasses (default values, ordered, subclass, case-folding lookup, counting) x 3 envelopes x header / type present or not x 8 field sets x stale bitmaps x 6 faults, then the missing parts added and encoded again"))
    hs.append(Harness("set transitions in one bitmap", within, "all ordered pairs of subsets of 5 fields of the same bitmap (and of 5 across the bitmaps) x 3 ways between them x 2 (3) envelopes"))
    hs.append(Harness("set transitions", pairs, "all ordered pairs of subsets of 6 (thorough 8) boundary fields x encode / encode+decode in between x 2 (3) envelopes"))
    return hs, {"assumptions": ["dictionaries are edited only between calls"]}


# ------------------------------------------------------------------ C12

def _s1():
    s = dict(S.env(0)[0])
    s["2"] = F("ascii", "ascii", 2, 19)
    s["3"] = F("ascii", ml=2)
    s["66"] = F("b", "ascii", 3, 9)
    s["129"] = F("ascii", ml=1)
    return copy.deepcopy(s)


def _s2():
    s = dict(S.env(1)[0])
    s["h"] = F("ascii", ml=2)
    s["2"] = F("b", "bcd", 1, 19, len_count="nibbles", right_pad="F")
    s["3"] = F("cp500", ml=2)
    s["66"] = F("b", "b", 2, 9)
    s["129"] = F("latin-1", "b", 1, 3)
    return copy.deepcopy(s)


DOC1 = {"t": "0200", "2": "12345", "66": "AB12"}
DOC2 = {"h": "HD", "t": "0200", "2": "12345", "3": "ok", "129": "7"}
RAW1 = ref.encode(dict(DOC1), _s1())[0]
RAW2 = ref.encode(dict(DOC2), _s2())[0]
RAW1B = ref.encode({"t": "0200", "2": "12345"}, _s1())[0]
RAWD = ref.encode({"t": "0200", "2": "12345", "70": "001", "127": "z"}, A.default_ascii)[0]


class Session:
    """One history: the library instance, the specifications the user holds and everything returned so far."""

    def __init__(self):
        self.a = fresh()
        self.s1, self.s2 = _s1(), _s2()
        self.spec_models = None
        self.kept = []  # (label, object, snapshot)
        self.buf = bytearray(RAW1)
        self.shared_doc = dict(DOC1)
        self.dec = None
        self.log = []
        self.snap_specs()

    def specs(self):
        return {"s1": self.s1, "s2": self.s2, "default": self.a.default, "default_ascii": self.a.default_ascii}

    def snap_specs(self):
        self.spec_models = {k: copy.deepcopy(v) if k[0] == "s" else {f: dict(v[f]) for f in ("h", "t", "p", "1", "2", "70", "127") if f in v} for k, v in self.specs().items()}

    def check_specs(self):
        for k, v in self.specs().items():
            m = self.spec_models[k]
            if k[0] == "s":
                if v != m:
                    raise Violation("specification %s was modified" % k, {"log": self.log, "got": v, "expected": m})
            elif any(v.get(f) != m[f] for f in m):
                raise Violation("specification %s was modified" % k, {"log": self.log})

    def check_kept(self):
        for label, obj, snap in self.kept:
            if view(obj) != snap:
                raise Violation("an earlier result changed: %s" % label, {"log": self.log, "got": view(obj), "expected": snap})

    def keep(self, label, obj):
        self.kept.append((label, obj, view(obj)))

    def enc(self, doc, spec):
        given = dict(doc)
        want, wenc, wdoc = J.ref_encode(dict(doc), spec)
        try:
            raw, enc = self.a.encode(doc, spec)
        except self.a.EncodeError as e:
            if not isinstance(want, ref.Bad):
                raise Violation("encode rejected a valid dictionary: %s" % e, {"log": self.log, "doc": given}) from None
            if (e.msg, e.field) != (want.msg, want.field):
                raise Violation("wrong error: %s" % e, {"log": self.log, "expected": (want.msg, want.field)}) from None
            self.keep("EncodeError", (e, e.doc_enc))
            return
        if isinstance(want, ref.Bad):
            raise Violation("encode accepted what must be rejected: %s, field %s" % (want.msg, want.field), {"log": self.log, "doc": given, "got": bytes(raw)})
        if bytes(raw) != want or enc != wenc or doc != wdoc:
            raise Violation("encode result depends on the history", {"log": self.log, "doc": given, "got": (bytes(raw), enc, doc), "expected": (want, wenc, wdoc)})
        self.keep("encode result", (raw, enc))

    def decode(self, raw, spec, keep=True):
        given = bytes(raw)
        want, wenc = J.ref_decode(given, spec)
        try:
            dec, enc = self.a.decode(raw, spec)
        except self.a.DecodeError as e:
            if not isinstance(want, ref.Bad):
                raise Violation("decode rejected a valid message: %s" % e, {"log": self.log, "raw": given}) from None
            if (e.msg, e.field, e.pos) != want.args:
                raise Violation("wrong error: %s" % e, {"log": self.log, "expected": want.args}) from None
            self.keep("DecodeError", (e, e.doc_dec, e.doc_enc))
            return
        if isinstance(want, ref.Bad):
            raise Violation("decode accepted what must be rejected: %s, field %s" % (want.msg, want.field), {"log": self.log, "raw": given, "got": dec})
        if dec != want or enc != wenc or list(dec) != list(want):
            raise Violation("decode result depends on the history", {"log": self.log, "raw": given, "got": (dec, enc), "expected": (want, wenc)})
        if bytes(raw) != given:
            raise Violation("decode changed its input", {"log": self.log})
        if keep:
            self.keep("decode result", (dec, enc))
        self.dec = dec
        return dec, enc

    def pp(self, doc, spec, dw, lw):
        from .printing import Out
        before = view(doc)
        out = Out()
        self.a.pp(doc, spec, dw, out, lw)
        want = ref.pp(doc, spec, dw, lw)
        if out.text() != want:
            raise Violation("pp result depends on the history", {"log": self.log, "got": out.text(), "expected": want})
        if view(doc) != before:
            raise Violation("pp changed its argument", {"log": self.log})

    # ---- operations

    def op_enc1(self):
        self.enc(dict(DOC1), self.s1)

    def op_enc2(self):
        self.enc(dict(DOC2), self.s2)

    def op_enc1_s2(self):
        self.enc(dict(DOC1, h="hh"), self.s2)

    def op_dec1(self):
        self.decode(RAW1, self.s1)

    def op_dec2(self):
        self.decode(RAW2, self.s2)

    def op_dec1_short(self):
        self.decode(RAW1[:-1], self.s1)

    def op_dec2_short(self):
        self.decode(RAW2[:-2], self.s2)

    def op_enc2_bad(self):
        self.enc({"h": "HD", "t": "0200", "2": "12x"}, self.s2)

    def op_dec1_other(self):
        self.decode(RAW1B, self.s1)
        self.decode(RAW1, self.s2)

    def op_enc1_bad(self):
        self.enc(dict(DOC1, **{"66": "XY"}), self.s1)

    def op_enc_shared(self):
        self.enc(self.shared_doc, self.s1)

    def op_toggle_shared(self):
        d = self.shared_doc
        if "129" in d:
            del d["129"]
            d["2"] = "1"
        else:
            d["129"] = "q"
            d.pop("66", None)

    def op_dec_buf(self):
        self.decode(self.buf, self.s1)
        self.buf[-1] ^= 1
        self.check_kept()
        self.decode(self.buf, self.s1)

    def op_dec_default(self):
        self.decode(RAWD, self.a.default_ascii)

    def op_enc_default(self):
        self.enc({"t": "0200", "2": "12345", "70": "001", "127": "z"}, self.a.default)

    def op_edit_default(self):
        d = self.a.default_ascii
        d["2"]["max_len"] = 4 if d["2"]["max_len"] == 19 else 19
        self.snap_specs()

    def op_edit_limit(self):
        """In place: same specification object, same entry object."""
        e = self.s1["2"]
        e["max_len"], e["len_type"] = (3, 2) if e["max_len"] == 19 else (19, 3) if e["len_type"] == 2 else (19, 2)
        self.snap_specs()

    def op_edit_entry(self):
        """A new entry object in the same specification object."""
        self.s1["2"] = F("cp500", "bcd", 1, 19) if self.s1["2"]["data_enc"] == "ascii" else F("ascii", "ascii", 2, 19)
        self.snap_specs()

    def op_edit_bitmaps(self):
        s = self.s1
        b = s["p"]["data_enc"] == "b"
        s["p"]["data_enc"] = "ascii" if b else "b"
        s["1"]["data_enc"] = "ascii" if b else "b"
        s["t"]["data_enc"] = "ascii" if b else "b"
        s["h"]["max_len"] = 0 if b else 1
        self.snap_specs()

    def op_drop_field(self):
        if "66" in self.s1:
            del self.s1["66"]
        else:
            self.s1["66"] = F("ascii", ml=4)
        self.snap_specs()

    def op_edit_pads(self):
        e = self.s2["2"]
        if "right_pad" in e:
            del e["right_pad"]
            e["left_pad"] = "0"
        else:
            del e["left_pad"]
            e["right_pad"] = "F"
        self.snap_specs()

    def op_edit_desc(self):
        e = self.s1["2"]
        e["desc"] = "other" if e["desc"] == "field" else "field"
        self.snap_specs()

    def op_temp_specs(self):
        """Short-lived specifications: their addresses are reused by the next ones."""
        for v in (F("ascii", "ascii", 2, 9), F("b", "b", 1, 9, len_count="nibbles", left_pad="0"), F("ascii", ml=5)):
            s = _s1()
            s["2"] = v
            self.enc({"t": "0200", "2": "12345"}, s)
            r = ref.encode({"t": "0200", "2": "12345"}, s)[0]
            self.decode(r, s)
            del s

    def op_scribble(self):
        """The caller changes everything it was given."""
        for _, obj, _ in self.kept:
            for x in obj if isinstance(obj, tuple) else (obj,):
                if isinstance(x, bytearray):
                    x[:] = b"scribble"
                elif isinstance(x, dict):
                    for k in list(x):
                        if isinstance(x[k], dict):
                            x[k]["data"] = b"scribble"
                            x[k]["len"] = b"?"
                        else:
                            x[k] = "scribble"
                    x["66"] = "junk"
        self.kept = []
        self.dec = None

    def op_reencode(self):
        if self.dec is not None:
            d = dict(self.dec)
            d["3"] = "zz"
            self.enc(d, self.s1)

    def op_pp(self):
        self.pp({"t": "0200", "2": "1" * 90, "66": {"len": b"02", "data": b"\xab\x12" * 30}}, self.s1 if "66" in self.s1 else dict(self.s1, **{"66": F()}), 20, 60)

    def op_pp2(self):
        self.pp({"h": "HD", "t": "0200", "2": "1" * 90, "129": "'\""}, self.s2, 0, 30)


def view(x):
    if isinstance(x, tuple):
        return tuple(view(y) for y in x)
    if isinstance(x, bytearray):
        return bytes(x)
    if isinstance(x, dict):
        return {k: view(v) for k, v in x.items()}
    if isinstance(x, ValueError):
        return (type(x).__name__, str(x), x.args, x.msg, x.field, getattr(x, "pos", None))
    return x


OPS = sorted([n for n in dir(Session) if n.startswith("op_")])
CORE = ["op_enc1", "op_dec1", "op_enc2", "op_dec2", "op_edit_limit", "op_edit_entry", "op_edit_bitmaps", "op_temp_specs", "op_scribble", "op_enc_shared", "op_toggle_shared", "op_dec1_short",
        "op_enc1_bad", "op_pp"]


def sequences(ops, depth):
    def fn(ch):
        s = Session()
        for _ in range(depth):
            op = ch.pick(ops)
            s.log.append(op)
            LAST[0] = ("history", list(s.log))
            getattr(s, op)()
            s.check_specs()
            s.check_kept()
        return s.log[-1]
    return fn


PROPERTIES = [("data_enc", ("ascii", "latin-1", "cp500", "b", "utf-16-le", "nonsense-codec")), ("len_enc", ("ascii", "cp500", "b", "bcd", "nonsense-codec")), ("len_type", (0, 1, 2, 3)), ("max_len", (0, 2, 4, 5, 19)),
              ("len_count", ("bytes", "nibbles", None)), ("left_pad", ("", "0", "F", "f", None)), ("right_pad", ("", "0", "F", "f", None)), ("desc", ("other",))]
EDIT_BASES = [F("ascii", "ascii", 2, 9), F("b", "b", 1, 9), F("b", "bcd", 1, 9, len_count="nibbles", left_pad="0"), F("b", "bcd", 1, 9, len_count="nibbles", right_pad="F"), F("cp500", "ascii", 2, 19), F("ascii", ml=4), F("b", ml=5, len_count="nibbles", left_pad="0", right_pad="F")]


def spec_edits(ch):
    """One property of one entry is edited between two calls, and then edited back."""
    s = Session()
    spec, doc = S.env(ch.choose(2))
    spec = copy.deepcopy(spec)
    key = ch.pick(("2", "h", "66", "129", "t", "p", "1"))
    if key in ("t", "p", "1"):
        spec["2"], spec["66"] = F("ascii", "ascii", 2, 9), F("ascii", ml=1)
        doc.update({"2": "1234", "66": "x"})
    else:
        spec[key] = dict(ch.pick(EDIT_BASES))
        doc[key] = ch.pick(("1234", "ABC12", "123456789ABC"))
    prop, values = ch.pick(PROPERTIES)
    old = spec[key].get(prop)
    new = ch.pick([v for v in values if v != old])
    how = ch.choose(4)  # the entry in place; a new entry; a new specification; a new one after the old one is gone
    use = ch.choose(3)  # encode; decode; pp

    def edit(spec, value):
        if how == 0:
            e = spec[key]
        else:
            if how == 2:
                keep.append(spec)
                spec = dict(spec)
            elif how == 3:
                tmp = copy.deepcopy(spec)
                spec.clear()
                del spec
                spec = tmp
            e = spec[key] = dict(spec[key])
        if value is None:
            e.pop(prop, None)
        else:
            e[prop] = value
        return spec
    keep = []
    raws = []

    def call(spec):
        s.log.append((prop, spec[key].get(prop)))
        LAST[0] = ("history", key, dict(spec[key]), list(s.log), ("encode", "decode", "pp")[use], doc)
        snap = copy.deepcopy(spec)
        if use == 0:
            s.enc(dict(doc), spec)
        elif use == 1:
            want = J.ref_encode(dict(doc), spec)[0]
            if not isinstance(want, ref.Bad):
                raws.append(want)
            for raw in raws:
                s.decode(raw, spec)
        else:
            s.pp(doc, spec, 9, 30)
        if spec != snap:
            raise Violation("the specification was modified", {"got": spec, "expected": snap})
        s.check_kept()
    if spec["h"]["max_len"] == 0 and "h" in doc and use == 2:
        raise Skip()
    call(spec)
    spec = edit(spec, new)
    call(spec)
    spec = edit(spec, old)
    call(spec)
    for k in keep:
        call(k)
    return "%s edited" % prop


PAIRS = [F(de, le, lt, 999, len_count=lc, left_pad="0") for de in ("ascii", "cp500", "b") for le in ("ascii", "cp500", "b", "bcd") for lt in (1, 2, 3) for lc in ("bytes", "nibbles")] + [
    F("ascii", ml=12), F("cp500", ml=12), F("b", ml=12, len_count="nibbles"), F("b", ml=6), F("b", "b", 1, 999, len_count="nibbles", right_pad="F"), F("utf-8", "ascii", 2, 999), F("utf-16-le", "ascii", 3, 999)]


def config_pairs(values, pairs=None):
    """Two calls with different field configurations and related content: the second is as if alone."""
    def fn(ch):
        a = fresh()
        one, two = ch.pick(pairs or PAIRS), ch.pick(pairs or PAIRS)
        v = ch.pick(values)
        w = ch.pick((v, v[::-1]))
        spec1, doc1 = S.env(0)
        spec1 = dict(spec1)
        spec2, doc2 = dict(spec1), dict(doc1)
        spec1["2"], doc1["2"], spec2["2"], doc2["2"] = one, v, two, w
        log = []
        want = J.ref_encode(dict(doc1), spec1)
        want2 = J.ref_encode(dict(doc2), spec2)
        raws = [x[0] for x in (want, want2) if not isinstance(x[0], ref.Bad)]

        def enc(spec, doc, want):
            log.append(("encode", spec["2"], doc["2"]))
            LAST[0] = ("history", log)
            try:
                got, genc = a.encode(dict(doc), spec)
            except a.EncodeError as e:
                if not isinstance(want[0], ref.Bad):
                    raise Violation("encode failed after an earlier call: %s" % e, {"log": log, "expected": want[0]}) from None
                return
            if isinstance(want[0], ref.Bad) or bytes(got) != want[0] or genc != want[1]:
                raise Violation("encode differs after an earlier call", {"log": log, "got": bytes(got), "expected": want[0] if not isinstance(want[0], ref.Bad) else str(want[0])})

        def dec(spec, raw):
            log.append(("decode", spec["2"], raw))
            LAST[0] = ("history", log)
            w = J.ref_decode(raw, spec)
            try:
                got, genc = a.decode(raw, spec)
            except a.DecodeError as e:
                if not isinstance(w[0], ref.Bad):
                    raise Violation("decode failed after an earlier call: %s" % e, {"log": log, "expected": w[0]}) from None
                return
            if isinstance(w[0], ref.Bad) or got != w[0] or genc != w[1]:
                raise Violation("decode differs after an earlier call", {"log": log, "got": got, "expected": w[0] if not isinstance(w[0], ref.Bad) else str(w[0])})
        enc(spec1, doc1, want)
        enc(spec2, doc2, want2)
        for raw in raws:
            dec(spec1, raw)
            dec(spec2, raw)
        return "%d messages" % len(raws)
    return fn


def _all_codecs():
    import encodings.aliases as al
    return [F(n, "ascii", 2, 40) for n in sorted(set(al.aliases.values()) | {"utf-8-sig", "latin1", "LATIN-1", "utf8", "UTF-8", "nonsense", "nonsense-8"})]


def _bad_calls():
    """Failing calls, several of each kind with different inputs: (operation, specification, argument)."""
    s1, s2 = _s1(), _s2()
    calls = []
    for i, (s, raw, d) in enumerate(((s1, RAW1, DOC1), (s2, RAW2, DOC2))):
        head = 2 if i else 0
        calls += [("decode", s, x) for x in (
            b"", raw[:1], raw[:5], raw[:-1], raw[:-2], raw + b"x", raw + b"yz", raw[:head] + b"\x00", raw[:head + 2] + b"Z" * 20, raw[:head + 4], raw.replace(b"\x05", b"\x99").replace(b"005", b"0Z5"), raw.replace(b"05", b"99"))]
        calls += [("encode", s, x) for x in (
            {}, {"h": 5}, {"h": "HD"}, {"h": "HD", "t": "02"}, {"h": "HD", "t": "0300x"}, dict(d, **{"2": "1" * 30}), dict(d, **{"2": "1" * 31}), dict(d, **{"3": "abc"}), dict(d, **{"3": 7}), dict(d, **{"66": "XY"}), dict(d, **{"66": "A"}),
            dict(d, **{"90": "x"}), dict(d, **{"91": "y"}), dict(d, **{"500": "x"}), dict(d, **{"2": "\xe9"}), dict(d, **{"129": ""}))]
    return calls


def errors_kept(ch):
    """The error of one call is kept by the caller while others fail; all of them keep saying what they said."""
    calls = _bad_calls()
    a = fresh()
    kept = []
    seq = [ch.pick(calls), ch.pick(calls)]
    if ch.flag():
        seq.append(seq[0])
    for op, spec, x in seq:
        LAST[0] = ("keeping the errors of", seq)
        x = dict(x) if op == "encode" else x
        want = J.ref_encode(dict(x), spec)[0] if op == "encode" else J.ref_decode(x, spec)[0]
        try:
            (a.encode if op == "encode" else a.decode)(x, spec)
        except (a.EncodeError, a.DecodeError) as e:
            if not isinstance(want, ref.Bad):
                raise Violation("%s failed: %s" % (op, e), {"argument": x}) from None
            if any(e is k for k, *_ in kept):
                raise Violation("two failed calls gave the same error object", {"calls": seq, "error": str(e)}) from None
            carried = e.doc_enc if op == "encode" else (e.s, e.doc_dec, e.doc_enc)
            kept.append((e, carried, view(e), view(carried), e.__context__))
        else:
            if isinstance(want, ref.Bad):
                raise Violation("%s accepted what must be rejected: %s" % (op, want.msg), {"argument": x})
        for e, carried, v, c, ctx in kept:
            if view(e) != v or view(carried) != c:
                raise Violation("an earlier error changed", {"calls": seq, "got": (view(e), view(carried)), "expected": (v, c)})
            if e.__context__ is not ctx:
                raise Violation("an earlier error was chained to another call's", {"calls": seq})
    for i, k in enumerate(kept):
        for m in kept[i + 1:]:
            for x in (k[1] if isinstance(k[1], tuple) else (k[1],)):
                for y in (m[1] if isinstance(m[1], tuple) else (m[1],)):
                    if isinstance(x, dict) and x is y:
                        raise Violation("two errors share a dictionary", {"calls": seq})
    return "%d errors" % len(kept)


def long_history(ch):
    """Thousands of calls with many distinct specifications, messages and values (past any cache size)."""
    a = fresh()
    stride = ch.pick((1, 7, 31))
    twice = ch.flag()
    n = 1500
    idx = [(i * stride) % n for i in range(n)] * (2 if twice else 1)
    hold = []
    kinds = [F("ascii", "ascii", 2, 9), F("b", "b", 1, 9), F("cp500", "bcd", 1, 9), F("b", "bcd", 1, 9, len_count="nibbles", left_pad="0"), F("ascii", ml=4), F("latin-1", "ascii", 3, 9)]
    for c, i in enumerate(idx):
        spec, doc = S.env(i % 2)
        spec = copy.deepcopy(spec)
        key = str([2, 3, 66, 129, 64, 128, 192][i % 7])
        spec[key] = dict(kinds[i % 6], max_len=kinds[i % 6]["max_len"] if kinds[i % 6]["len_type"] == 0 else 9 + i % 50)
        doc[key] = ("%04d" % i) if i % 5 else "%04X" % (i * 3)
        LAST[0] = ("encode", spec, dict(doc))
        want, wenc, _ = ref.encode(dict(doc), spec)
        raw, enc = a.encode(doc, spec)
        if bytes(raw) != want or enc != wenc:
            raise Violation("call %d of a long history differs" % c, {"got": bytes(raw), "expected": want})
        dec, enc2 = a.decode(bytes(raw), spec)
        wdec, wenc2 = ref.decode(want, spec)
        if dec != wdec or enc2 != wenc2:
            raise Violation("call %d of a long history differs" % c, {"got": dec, "expected": wdec})
        try:
            a.decode(bytes(raw) + b"x", spec)
            raise Violation("extra data accepted in call %d of a long history" % c)
        except a.DecodeError:
            pass
        if c % 3 == 0:
            hold.append((spec, dec, dict(dec)))
        from .printing import Out
        if c % 10 == 0:
            out = Out()
            a.pp(dec, spec, c % 40, out, 20 + c % 90)
            if out.text() != ref.pp(wdec, spec, c % 40, 20 + c % 90):
                raise Violation("pp call %d of a long history differs" % c, {"got": out.text()})
    for _, d, snap in hold:
        if d != snap:
            raise Violation("an early result changed later", {"got": d, "expected": snap})
    return "long"


def c12(tier):
    from .environ import CONTEXTS, KNOWN, OPTIONS, SWEEPS, VALUES, calls, environments, surroundings, sweeps, variables
    from .nested import nested
    th = tier == "thorough"
    hs = [Harness("all operations", sequences(OPS, 3), "all sequences of %d operations to depth 3, fresh library per sequence" % len(OPS), split=200),
          Harness("core operations", sequences(CORE, 5 if th else 4), "all sequences of %d operations to depth %d, fresh library per sequence" % (len(CORE), 5 if th else 4), split=400),
          Harness("nested calls", nested(th), "8 calls x every stream write, specification access or codec call made by them x 12 calls made from inside it (dry-run counted), then three more calls"),
          Harness("interpreter settings", environments(th), "%d calls in a new interpreter for every combination of 3 optimisation levels, 3 locale / UTF-8 modes and %d hash seeds" % (len(calls()), 32 if th else 6), depth=2),
          Harness("surroundings", surroundings(th), "%d calls made from %d kinds of surroundings (threads, finalisers, signal handlers, clocks, ...), and under %d more interpreter options%s"
                  % (len(calls()), len(CONTEXTS) + 1, len(OPTIONS) - 1, ", and both" if th else ""), depth=1),
          Harness("environment variables", variables, "the same calls with %d sets of well-known variables, and with each variable that the library is seen to look at set to %d values" % (len(KNOWN), len(VALUES)), depth=1),
          Harness("optimised interpreter", sweeps(th), "%d whole explorations of other properties repeated in a new interpreter with -O (thorough: and -OO)" % len(SWEEPS), depth=1, describe=False),
          Harness("single edits", spec_edits, "7 entries x 7 kinds x 8 properties and their values x 4 ways to edit x encode / decode / pp, before, after and after editing back x 2 envelopes x 3 values"),
          Harness("pairs of codecs", config_pairs(("~\xe9", "\u0416 1", "A~[\xa5") if th else ("~\xe9", "\u0416 1"), _all_codecs()), "all ordered pairs of the %d codecs of the interpreter x %d value(s) x same / reversed: both encoded, then both results decoded with both" % (len(_all_codecs()), 3 if th else 2)),
          Harness("pairs of configurations", config_pairs(("123456789012", "12345678901A" * 9) if th else ("123456789012",)), "all ordered pairs of %d field configurations (encodings, length encodings, widths, units, pads) x %d value(s) x same / reversed: both encoded, then both results decoded under both" % (len(PAIRS), 2 if th else 1), split=400),
          Harness("errors kept", errors_kept, "all ordered pairs of 56 failing and fringe calls (then the first again): every error still says what it said, shares nothing"),
          Harness("long histories", long_history, "6 histories of 1500-3000 rounds of encode, decode, failing decode and pp with distinct specifications")]
    if th:
        hs.append(Harness("all operations, deeper", sequences(OPS, 4), "all sequences of %d operations to depth 4" % len(OPS), split=600))
    return hs, {"assumptions": ["every sequence starts from freshly loaded modules"]}


PROPS = {"C11": c11, "C12": c12}
