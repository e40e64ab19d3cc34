"""Judges: run the real code on one input and compare with the reference or a law.

``enc_*`` judges take (spec, doc), ``dec_*`` judges take (spec, raw).  They return an
outcome label and raise Violation on disagreement.
"""
import collections
import collections.abc
import copy
import json
import pickle
import re
import types

from . import ref
from .api import std as A
from .engine import LAST, Violation

BITMAPS = ("1", "65")


def bad(msg, **case):
    raise Violation(msg, case)


def note(op, spec, x):
    LAST[0] = (op, spec, x)


def wire_keys(keys):
    """h, t, p, 1 and then fields in ascending order."""
    return [k for k in ("h", "t", "p", "1") if k in keys] + sorted((k for k in keys if k not in ("h", "t", "p", "1")), key=int)


def concat(enc):
    return b"".join(enc[k]["len"] + enc[k]["data"] for k in wire_keys(enc))


_CUT = {}


def cut(msg):
    r = _CUT.get(msg)
    if r is None:
        r = re.sub(r"\[.*", "[...]", re.sub(r"-?\d+", "N", msg))[:60]
        if len(_CUT) < 20000:
            _CUT[msg] = r
    return r


def real_encode(doc, spec):
    """-> (raw, enc) or the EncodeError."""
    try:
        raw, enc = A.encode(doc, spec)
    except A.EncodeError as e:
        return e, None
    return raw, enc


def real_decode(raw, spec):
    try:
        return A.decode(raw, spec)
    except A.DecodeError as e:
        return e, None


def ref_encode(doc, spec):
    try:
        return ref.encode(doc, spec)
    except ref.Bad as b:
        return b, None, None


def ref_decode(raw, spec):
    try:
        return ref.decode(raw, spec)
    except ref.Bad as b:
        return b, None


def same_enc(got, want, what="encoded parts"):
    if got != want:
        bad("%s differ" % what, got=got, expected=want)


# ------------------------------------------------------------- full comparisons

def enc_vs_ref(spec, doc):
    """encode accepts exactly what the reference accepts, with the same bytes, parts and bitmaps."""
    note("encode", spec, dict(doc))
    want, wenc, wdoc = ref_encode(doc, spec)
    got, genc = real_encode(doc, spec)
    if isinstance(want, ref.Bad):
        if genc is not None:
            bad("encode accepted what must be rejected (%s, field %s)" % (want.msg, want.field), got=bytes(got))
        return "rejected: " + cut(want.msg)
    if genc is None:
        bad("encode rejected a valid dictionary: %s" % got, expected=want)
    if bytes(got) != want:
        bad("encode produced wrong bytes", got=bytes(got), expected=want)
    same_enc(genc, wenc)
    if doc != wdoc:
        bad("dictionary after encode is wrong", got=dict(doc), expected=wdoc)
    return "accepted"


def dec_vs_ref(spec, raw):
    """decode accepts exactly what the reference accepts, with the same result in the same order."""
    note("decode", spec, raw)
    want, wenc = ref_decode(raw, spec)
    got, genc = real_decode(raw, spec)
    if isinstance(want, ref.Bad):
        if genc is not None:
            bad("decode accepted what must be rejected (%s, field %s)" % (want.msg, want.field), got=got)
        return "rejected: " + cut(want.msg)
    if genc is None:
        bad("decode rejected a valid message: %s" % got, expected=want)
    if got != want:
        bad("decode returned wrong values", got=got, expected=want)
    same_enc(genc, wenc)
    if list(got) != list(want) or list(genc) != list(want):
        bad("decode returned fields out of order", got=list(got), expected=list(want))
    return "accepted"


# ------------------------------------------------------------- C01 / C02 round trips

def lossless(value, de):
    try:
        return value.encode(de).decode(de) == value
    except Exception:
        return True  # not representable: must be rejected anyway


def enc_roundtrip(spec, doc):
    before = dict(doc)
    note("encode", spec, before)
    raw, enc = real_encode(doc, spec)
    if enc is None:
        return "rejected by encode"
    want = {}
    for k, v in before.items():
        if k in BITMAPS or k == "p" or not (k in ("h", "t") or k.isdigit()):
            continue
        if k == "h" and spec["h"]["max_len"] <= 0:
            continue
        de = spec[k]["data_enc"]
        if de != "b" and not lossless(v, de):
            return "codec is lossy for this value"
        want[k] = v.upper() if de == "b" else v
    fields = [int(k) for k in want if k.isdigit()]
    want["p"] = ref.bitmap_hex([f for f in fields if f <= 64] + ([1] if any(f > 64 for f in fields) else []), 0)
    if any(f > 64 for f in fields):
        want["1"] = ref.bitmap_hex([f for f in fields if 64 < f <= 128] + ([65] if any(f > 128 for f in fields) else []), 64)
        if any(f > 128 for f in fields):
            want["1"] += ref.bitmap_hex([f for f in fields if f > 128], 128)
    dec, enc2 = real_decode(bytes(raw), spec)
    if enc2 is None:
        bad("decode rejected what encode produced: %s" % dec, raw=bytes(raw))
    if dec != want:
        bad("decode(encode(d)) differs from d", raw=bytes(raw), got=dec, expected=want)
    if enc2 != enc:
        bad("encode and decode disagree on the encoded parts", encode=enc, decode=enc2)
    dec3, enc3 = real_decode(raw, spec)
    if dec3 != want or enc3 != enc:
        bad("decoding encode's own bytearray differs from decoding bytes", got=repr(dec3))
    return "round trip"


def _lossy_bytes(part, codec):
    try:
        return part.decode(codec).encode(codec) != part
    except Exception:
        return True


def dec_roundtrip(spec, raw):
    note("decode", spec, raw)
    dec, enc = real_decode(raw, spec)
    if enc is None:
        return "rejected by decode"
    for k, v in dec.items():
        fs = spec[k]
        if k in ("p", "1"):
            if fs["data_enc"] != "b" and _lossy_bytes(enc[k]["data"], fs["data_enc"]):
                return "codec is lossy for a bitmap"
            continue
        if enc[k]["len"] and fs["len_enc"] not in ("b", "bcd") and _lossy_bytes(enc[k]["len"], fs["len_enc"]):
            return "codec is lossy for a length"
        if fs.get("left_pad") and fs.get("right_pad"):
            return "two pads"
        if fs["data_enc"] != "b":
            try:
                if v.encode(fs["data_enc"]) != enc[k]["data"]:
                    return "codec is lossy for this value"
            except Exception:
                return "codec is lossy for this value"
        elif fs.get("len_count") == "nibbles" and len(v) % 2 and len(v) + 1 != 2 * len(enc[k]["data"]):
            bad("decoded nibbles do not account for the data", got=dec, enc=enc)
    back, benc = real_encode(dict(dec), spec)
    if benc is None:
        bad("encode rejected what decode produced: %s" % back, decoded=dec)
    fields = [int(k) for k in dec if k.isdigit() and k != "1"]
    for k in dec:
        if k not in ("p", "1") and benc.get(k) != enc[k]:
            bad("field %s is re-encoded differently" % k, got=benc.get(k), wire=enc[k])
    canonical = True
    for k in ("p", "1"):
        if k in enc and spec[k]["data_enc"] != "b" and any(c in "abcdef" for c in dec[k]):
            canonical = False
    if "1" in dec and not any(f > 64 for f in fields):
        canonical = False
    if len(dec.get("1", "")) == 32 and not any(f > 128 for f in fields):
        canonical = False
    if set(benc) - {"1"} != set(enc) - {"1"}:
        bad("re-encoding changed the fields", got=list(benc), wire=list(enc))
    if canonical:
        if bytes(back) != raw:
            bad("encode(decode(b)) differs from b", got=bytes(back), decoded=dec)
        return "round trip"
    want, wenc, _ = ref_encode({k: v for k, v in dec.items() if k not in ("p", "1")}, spec)
    if bytes(back) != want:
        bad("encode(decode(b)) is not b with canonical bitmaps", got=bytes(back), expected=want)
    return "round trip with canonical bitmaps"


# ------------------------------------------------------------- C03 / C10 totality

def dec_total(spec, raw):
    note("decode", spec, raw)
    try:
        r = A.decode(raw, spec)
    except A.DecodeError as e:
        return "DecodeError: " + cut(str(e.msg))
    except Exception as e:
        bad("decode raised %s: %s" % (type(e).__name__, e))
    if not (isinstance(r, tuple) and len(r) == 2 and type(r[0]) is dict and type(r[1]) is dict):
        bad("decode did not return two dictionaries", got=repr(r))
    return "decoded"


def enc_total(spec, doc):
    note("encode", spec, dict(doc))
    try:
        r = A.encode(doc, spec)
    except A.EncodeError as e:
        return "EncodeError: " + cut(str(e.msg))
    except Exception as e:
        bad("encode raised %s: %s" % (type(e).__name__, e))
    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], (bytes, bytearray)) and type(r[1]) is dict):
        bad("encode did not return bytes and a dictionary", got=repr(r))
    return "encoded"


def enc_accept(spec, doc):
    """Totality and acceptance exactly as documented."""
    note("encode", spec, dict(doc))
    want, _, _ = ref_encode(dict(doc), spec)
    out = enc_total(spec, doc)
    if (out == "encoded") != (not isinstance(want, ref.Bad)):
        bad("encode %s, the documentation says %s" % (out, want))
    return out


# ------------------------------------------------------------- C04 accounting

EXTRA = [b"\x00", b"0", b"\xf0", b" ", b"00", b"\x00" * 8, b"\n", b"\r\n", b"\x03", b"\xff" * 8, b"\x40"]


def _no_shorter_no_longer(spec, raw):
    for i in range(len(raw)):
        dec, enc = real_decode(raw[:i], spec)
        if enc is not None:
            bad("a proper prefix (%d of %d bytes) is accepted" % (i, len(raw)), raw=raw, got=dec)
    fill = -len(raw) % 8
    for x in EXTRA + [b"\x00" * fill, b"\xff" * fill, b" " * fill] if fill else EXTRA:
        dec, enc = real_decode(raw + x, spec)
        if enc is not None:
            bad("the message followed by %r is accepted" % x, raw=raw, got=dec)


def _account(raw, dec, enc, who):
    if set(dec) != set(enc):
        bad("%s: decoded and encoded dictionaries have different keys" % who, dec=list(dec), enc=list(enc))
    if concat(enc) != raw:
        bad("%s: encoded parts do not add up to the message" % who, raw=raw, parts=enc)


def enc_account(spec, doc, cuts=True):
    note("encode", spec, dict(doc))
    raw, enc = real_encode(doc, spec)
    if enc is None:
        return "rejected"
    raw = bytes(raw)
    if spec["h"]["max_len"] <= 0:
        doc = {k: v for k, v in doc.items() if k != "h"}
    _account(raw, [k for k in doc if k in "htp" or k.isdigit()], enc, "encode")
    dec, enc2 = real_decode(raw, spec)
    if enc2 is not None:
        _account(raw, dec, enc2, "decode")
        if cuts:
            _no_shorter_no_longer(spec, raw)
    return "accounted"


def dec_account(spec, raw, cuts=True):
    note("decode", spec, raw)
    dec, enc = real_decode(raw, spec)
    if enc is None:
        return "rejected"
    _account(raw, dec, enc, "decode")
    if cuts:
        _no_shorter_no_longer(spec, raw)
    return "accounted"


# ------------------------------------------------------------- C14 diagnostics

def _pickles(e, attrs):
    makes = [lambda n=n: pickle.loads(pickle.dumps(e, n)) for n in range(pickle.HIGHEST_PROTOCOL + 1)]
    for make in makes + [lambda: copy.copy(e), lambda: copy.deepcopy(e), lambda: copy.copy(pickle.loads(pickle.dumps(copy.deepcopy(e))))]:
        f = make()
        if type(f) is not type(e) or str(f) != str(e):
            bad("error changed by pickling or copying", got=repr(f), expected=repr(e))
        for a in attrs:
            if getattr(f, a) != getattr(e, a):
                bad("error attribute %s changed by pickling or copying" % a, got=repr(getattr(f, a)), expected=repr(getattr(e, a)))


def dec_diag(spec, raw, deep=False):
    note("decode", spec, raw)
    want, wenc = ref_decode(raw, spec)
    e, enc = real_decode(raw, spec)
    if not isinstance(want, ref.Bad):
        if enc is None:
            bad("decode rejected a valid message: %s" % e)
        return "accepted"
    if enc is not None:
        bad("decode accepted what must be rejected: %s, field %s pos %s" % want.args, got=e)
    if not isinstance(e, ValueError):
        bad("DecodeError is not a ValueError")
    if e.field != want.field:
        bad("wrong field in DecodeError", got=(str(e), e.field), expected=want.args)
    if e.pos != want.pos:
        bad("wrong position in DecodeError", got=(str(e), e.pos), expected=want.args)
    if e.msg != want.msg:
        bad("wrong message in DecodeError", got=e.msg, expected=want.msg)
    if str(e) != "%s: field %s pos %d" % (want.msg, want.field, want.pos):
        bad("wrong text of DecodeError", got=str(e), expected=want.args)
    if e.s is not raw and e.s != raw:
        bad("DecodeError does not carry the input", got=e.s)
    for k, v in want.dec.items():
        if k != want.field or want.msg.startswith("Extra"):
            if e.doc_dec.get(k) != v or e.doc_enc.get(k) != want.enc[k]:
                bad("DecodeError lost field %s decoded before the failure" % k, got=(e.doc_dec.get(k), e.doc_enc.get(k)), expected=(v, want.enc[k]))
    extra = [k for k in set(e.doc_dec) | set(e.doc_enc) if k not in want.dec and k != want.field]
    if extra:
        bad("DecodeError shows fields that were not reached", got=extra)
    if want.field == "1" and len(e.doc_dec.get("1", "")) >= 16 and want.pos:
        pass
    if deep:
        _pickles(e, ("msg", "s", "doc_dec", "doc_enc", "pos", "field"))
    return cut(want.msg)


def enc_diag(spec, doc, deep=False):
    note("encode", spec, dict(doc))
    want, wenc, _ = ref_encode(doc, spec)
    e, enc = real_encode(doc, spec)
    if not isinstance(want, ref.Bad):
        if enc is None:
            bad("encode rejected a valid dictionary: %s" % e)
        return "accepted"
    if enc is not None:
        bad("encode accepted what must be rejected: %s, field %s" % (want.msg, want.field), got=bytes(e))
    if not isinstance(e, ValueError):
        bad("EncodeError is not a ValueError")
    if e.field != want.field:
        bad("wrong field in EncodeError", got=(str(e), e.field), expected=(want.msg, want.field))
    if e.msg != want.msg:
        bad("wrong message in EncodeError", got=e.msg, expected=want.msg)
    if str(e) != "%s: field %s" % (want.msg, want.field):
        bad("wrong text of EncodeError", got=str(e), expected=(want.msg, want.field))
    if e.doc_dec is not doc:
        bad("EncodeError does not carry the caller's dictionary", got=e.doc_dec)
    for k, v in want.enc.items():
        if k != want.field and e.doc_enc.get(k) != v:
            bad("EncodeError lost field %s encoded before the failure" % k, got=e.doc_enc.get(k), expected=v)
    extra = [k for k in e.doc_enc if k not in want.enc and k != want.field]
    if extra:
        bad("EncodeError shows fields that were not reached", got=extra)
    if deep:
        _pickles(e, ("msg", "doc_dec", "doc_enc", "field"))
    return cut(want.msg)


# ------------------------------------------------------------- C20 plain data

def _plain(dec, enc, who):
    if type(dec) is not dict or type(enc) is not dict:
        bad("%s did not return plain dicts" % who, got=(type(dec).__name__, type(enc).__name__))
    for k, v in dec.items():
        if type(k) is not str or type(v) is not str:
            bad("%s: decoded value of %r is %s, not str" % (who, k, type(v).__name__))
    _plain_enc(enc, who)


def _plain_enc(enc, who):
    for k, v in enc.items():
        if type(k) is not str or type(v) is not dict or set(v) != {"len", "data"} or type(v["len"]) is not bytes or type(v["data"]) is not bytes:
            bad("%s: encoded parts of %r are not plain bytes" % (who, k), got=repr(v))


class SubBytes(bytes):
    pass


class SubBytearray(bytearray):
    pass


class SubStr(str):
    pass


class SubInt(int):
    pass


class OnlyMapping(collections.abc.Mapping):
    """A mapping with nothing but what every mapping has."""

    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


def only_mapping(spec):
    return OnlyMapping({k: OnlyMapping(v) for k, v in spec.items()})


def dec_plain(spec, raw):
    note("decode", spec, raw)
    a, aenc = real_decode(raw, spec)
    buf = bytearray(raw)
    b, benc = real_decode(buf, spec)
    if bytes(buf) != raw:
        bad("decode modified its input", got=bytes(buf))
    sub, senc = real_decode(SubBytes(raw), spec)
    sub2, senc2 = real_decode(SubBytearray(raw), spec)
    ro, roenc = real_decode(raw, types.MappingProxyType({k: types.MappingProxyType(v) for k, v in spec.items()}))
    om, omenc = real_decode(raw, only_mapping(spec))
    if aenc is None:
        for name, e, en in (("bytearray", b, benc), ("bytes subclass", sub, senc), ("bytearray subclass", sub2, senc2), ("read-only specification", ro, roenc), ("specification that is just a mapping", om, omenc)):
            if en is not None:
                bad("decode rejects bytes but accepts %s" % name, got=e)
            if (str(e), e.field, e.pos, e.doc_dec, e.doc_enc) != (str(a), a.field, a.pos, a.doc_dec, a.doc_enc):
                bad("decode fails differently for bytes and %s" % name, got=str(e), expected=str(a))
        before = copy.deepcopy((b.doc_dec, b.doc_enc))
        buf[:] = bytes(255 - x for x in buf)
        if (b.doc_dec, b.doc_enc) != before:
            bad("partial results change with the input buffer")
        buf.clear()
        _plain(b.doc_dec, b.doc_enc, "DecodeError of bytearray")
        return "rejected alike"
    for name, x, en in (("bytearray", b, benc), ("bytes subclass", sub, senc), ("bytearray subclass", sub2, senc2), ("read-only specification", ro, roenc), ("specification that is just a mapping", om, omenc)):
        if en is None:
            bad("decode accepts bytes but rejects %s: %s" % (name, x))
        if x != a or en != aenc:
            bad("decode differs for bytes and %s" % name, got=(x, en), expected=(a, aenc))
        _plain(x, en, "decode(%s)" % name)
    _plain(a, aenc, "decode(bytes)")
    want = wire_keys(a)
    if list(a) != want or list(aenc) != want or list(b) != want or list(benc) != want:
        bad("decoded fields are not in wire order", got=list(a))
    buf[:] = bytes(255 - x for x in buf)
    if b != a or benc != aenc:
        bad("results change when the input buffer is changed", got=(b, benc))
    buf[:] = b""
    # through JSON and back
    j = json.loads(json.dumps(a))
    if j != a:
        bad("decoded dictionary does not survive JSON", got=j)
    spec2 = json.loads(json.dumps(spec))
    r1, e1 = real_encode(dict(a), spec)
    r2, e2 = real_encode(j, spec2)
    if (e1 is None) != (e2 is None) or (e1 is not None and (bytes(r1) != bytes(r2) or e1 != e2)):
        bad("encoding differs after a JSON round trip", got=repr((r2, e2)), expected=repr((r1, e1)))
    if e1 is not None:
        _plain_enc(e1, "encode")
        a2, aenc2 = real_decode(bytes(r1), spec2)
        if aenc2 is None:
            bad("decode with a specification from JSON fails: %s" % a2)
    return "decoded alike"


def enc_plain(spec, doc):
    note("encode", spec, dict(doc))
    base = dict(doc)
    outs = []
    for name, d in (("dict", dict(base)), ("OrderedDict", collections.OrderedDict(base)), ("defaultdict", collections.defaultdict(str, base)),
                    ("dict subclass", SubDict(base)), ("JSON", json.loads(json.dumps(base)))):
        r, e = real_encode(d, spec)
        outs.append((name, r, e, d))
    ro = types.MappingProxyType({k: types.MappingProxyType(v) for k, v in spec.items()})
    d = dict(base)
    outs.append(("read-only specification", *real_encode(d, ro), d))
    d = dict(base)
    outs.append(("specification that is just a mapping", *real_encode(d, only_mapping(spec)), d))
    d = {SubStr(k): SubStr(v) for k, v in base.items()} if all(isinstance(v, str) for v in base.values()) else dict(base)
    outs.append(("subclass of str as keys and values", *real_encode(d, spec), d))
    _, r0, e0, d0 = outs[0]
    if e0 is not None:
        _plain_enc(outs[-1][2] or {}, "encode of str subclasses")
    for name, r, e, d in outs[1:]:
        if (e is None) != (e0 is None):
            bad("encode accepts dict and %s differently" % name, got=repr(r), expected=repr(r0))
        if e is not None and (bytes(r) != bytes(r0) or e != e0 or dict(d) != d0):
            bad("encode differs for dict and %s" % name, got=(bytes(r), e), expected=(bytes(r0), e0))
        if e is None and (str(r), r.field, r.doc_enc) != (str(r0), r0.field, r0.doc_enc):
            bad("encode fails differently for dict and %s" % name, got=str(r), expected=str(r0))
    if e0 is None:
        _plain_enc(r0.doc_enc, "EncodeError")
        return "rejected alike"
    if not isinstance(r0, (bytes, bytearray)):
        bad("encode did not return bytes", got=repr(r0))
    if type(e0) is not dict:
        bad("encode did not return a plain dict")
    _plain_enc(e0, "encode")
    for k, v in d0.items():
        if k in ("p", "1") and type(v) is not str:
            bad("bitmap %r is not a str" % k)
    return "encoded alike"


class SubDict(dict):
    pass
