"""C18: the shipped specifications against a frozen copy of their documentation tables."""
import copy
import json
import os

from .. import judges as J
from .. import ref
from .. import spaces as S
from ..api import fresh
from ..api import std as A
from ..engine import Harness, Violation
from .codec import BOUNDS, H

with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "shipped_tables.json")) as _f:
    TABLES = json.load(_f)
NAMES = ("default", "default_ascii")
FIELDS = [f for f in range(2, 129) if f != 65]


def live(name):
    return getattr(A, name)


def value(fs, n, salt=0):
    if fs["data_enc"] == "b":
        return S.HEX[salt:salt + 2 * n]
    return S.TEXT[salt:salt + n]


def both(name, doc):
    """Encode with the live specification, compare with the reference under the frozen table, decode back."""
    table, spec = TABLES[name], live(name)
    J.note("encode", spec, dict(doc))
    want, wenc, _ = J.ref_encode(doc, table)
    before = dict(doc)
    got, genc = J.real_encode(doc, spec)
    if isinstance(want, ref.Bad):
        if genc is not None:
            raise Violation("%s accepts what its table forbids: %s, field %s" % (name, want.msg, want.field), {"raw": bytes(got)})
        return "rejected: " + J.cut(want.msg)
    if genc is None:
        raise Violation("%s rejects what its table allows: %s" % (name, got), {"expected": want})
    if bytes(got) != want or genc != wenc:
        raise Violation("%s encodes differently from its table" % name, {"got": bytes(got), "expected": want})
    dec, denc = J.real_decode(want, spec)
    if denc is None:
        raise Violation("%s cannot decode its own message: %s" % (name, dec), {"raw": want})
    for k, v in before.items():
        if dec.get(k) != (v.upper() if table[k]["data_enc"] == "b" else v):
            raise Violation("%s: field %s does not round trip" % (name, k), {"got": dec.get(k), "expected": v})
    if denc != genc or set(dec) - {"p", "1"} != set(before):
        raise Violation("%s: decode returned other fields or parts" % name, {"got": denc, "expected": genc})
    return "accepted"


def tables(ch):
    name = ch.pick(NAMES)
    table, spec = TABLES[name], live(name)
    key = ch.pick(sorted(table, key=lambda k: (k.isdigit(), int(k) if k.isdigit() else 0, k)))
    prop = ch.pick(("data_enc", "len_enc", "len_type", "max_len", "desc", "rest"))
    J.LAST[0] = (name, key, prop)
    if key not in spec:
        raise Violation("%s does not define %s" % (name, key))
    if prop == "rest":
        extra = {k: v for k, v in spec[key].items() if k not in table[key]}
        if extra.get("len_count", "bytes") != "bytes":
            raise Violation("%s: field %s is not measured in bytes" % (name, key), extra)
        if json.loads(json.dumps(spec[key])) != spec[key]:
            raise Violation("%s: field %s is not JSON compatible" % (name, key))
        return "entry"
    got, want = spec[key].get(prop), table[key][prop]
    if got != want or type(got) is not type(want):
        raise Violation("%s: field %s has %s %r, documented %r" % (name, key, prop, got, want))
    return "documented"


def lengths(tier):
    def fn(ch):
        name = ch.pick(NAMES)
        f = ch.pick(FIELDS)
        fs = TABLES[name][str(f)]
        n = ch.upto(fs["max_len"] + 2)
        salt = ch.choose(3) * 7 if tier == "thorough" else f % 5
        return both(name, {"t": "0200", str(f): value(fs, n, salt)})
    return fn


def pairs(tier):
    def fn(ch):
        name = ch.pick(NAMES)
        t = TABLES[name]
        i = ch.upto(len(FIELDS) - 1, 1)
        j = ch.choose(i)
        kind = ch.choose(4 if tier == "thorough" else 2)
        doc = {"t": "0800"}
        for f, big in ((FIELDS[i], kind & 1), (FIELDS[j], kind >> 1)):
            fs = t[str(f)]
            n = fs["max_len"] if fs["len_type"] == 0 or (big and fs["max_len"] < 100) else 11 if big else 0
            doc[str(f)] = value(fs, n, f)
        return both(name, doc)
    return fn


def crowds(ch):
    """All fields at once with all / all but one / a range of fields, at minimum, maximum or mixed lengths."""
    name = ch.pick(NAMES)
    t = TABLES[name]
    how = ch.choose(3)
    kind = ch.choose(3)
    a = ch.choose(len(FIELDS))
    if kind == 0:
        fields = FIELDS[:a] + FIELDS[a + 1:]
    elif kind == 1:
        fields = FIELDS[:a + 1]
    else:
        fields = FIELDS[a:]
    doc = {"t": "0420"}
    for f in fields:
        fs = t[str(f)]
        n = fs["max_len"] if fs["len_type"] == 0 or how == 1 else 0 if how == 0 else (f * 7) % (fs["max_len"] + 1)
        doc[str(f)] = value(fs, n, f)
    return both(name, doc)


def raw_shipped(ch, thorough=False):
    """Every field announced alone, every body length 0..width+3 and every prefix value."""
    name = ch.pick(NAMES)
    t = TABLES[name]
    f = ch.pick(FIELDS)
    fs = t[str(f)]
    head = ref.encode({"t": "0200", str(f): ""}, dict(t, **{str(f): S.F("ascii", ml=0)}))[0]
    if fs["len_type"] == 0:
        n = ch.upto(fs["max_len"] + 1)
        return t, name, head + S.TEXT[:n].encode()
    v = ch.pick(sorted(set([0, 1, 2, 9, 10, 19, 20, 99, fs["max_len"] - 1, fs["max_len"], fs["max_len"] + 1, 10 ** fs["len_type"] - 1])))
    if v >= 10 ** fs["len_type"]:
        v = 3
    n = max(0, v + ch.pick((0, -1, 1)))
    return t, name, head + (b"%0*d" % (fs["len_type"], v)) + S.TEXT[:n].encode()


def raw_judge(ch):
    t, name, raw = raw_shipped(ch)
    spec = live(name)
    J.note("decode", spec, raw)
    want, wenc = J.ref_decode(raw, t)
    got, genc = J.real_decode(raw, spec)
    if isinstance(want, ref.Bad):
        if genc is not None:
            raise Violation("%s decodes what its table forbids: %s, field %s" % (name, want.msg, want.field), {"got": got})
        return "rejected: " + J.cut(want.msg)
    if genc is None or got != want or genc != wenc:
        raise Violation("%s decodes differently from its table" % name, {"got": repr(got), "expected": want})
    return "accepted"


def independent(ch):
    """Changing any entry of one specification changes nothing else."""
    a = fresh()
    name = ch.pick(NAMES)
    other = NAMES[1 - NAMES.index(name)]
    spec, untouched = getattr(a, name), getattr(a, other)
    key = ch.pick(list(TABLES[name]))
    J.LAST[0] = (name, key)
    before = copy.deepcopy(untouched)
    rest = copy.deepcopy({k: v for k, v in spec.items() if k != key})
    spec[key]["max_len"] = 77
    spec[key]["data_enc"] = "cp500"
    if untouched != before:
        raise Violation("changing %s[%r] changes %s" % (name, key, other))
    if {k: v for k, v in spec.items() if k != key} != rest:
        raise Violation("changing %s[%r] changes other entries" % (name, key))
    del spec[key]
    if untouched != before:
        raise Violation("deleting %s[%r] changes %s" % (name, key, other))
    return "independent"


def c18(tier):
    hs = [Harness("tables", tables, "both specifications x 131 entries x 5 documented properties"),
          Harness("lengths", lengths(tier), "both specifications x every field x every length 0..maximum+2"),
          Harness("pairs", pairs(tier), "both specifications x all pairs of fields x short/long"),
          Harness("crowds", crowds, "both specifications x all-but-one, every prefix range, every suffix range of fields x minimum/maximum/mixed lengths"),
          Harness("raw", raw_judge, "both specifications x every field announced alone x body lengths / prefix values around the limits"),
          Harness("independence", independent, "every entry of either specification changed and deleted")]
    return hs, {"assumptions": ["the tables in the documentation of iso8583.specs at the pinned commit are the documented values (frozen in mc/shipped_tables.json)"]}


PROPS = {"C18": c18}
