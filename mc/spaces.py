"""The input alphabets.  Every function takes the choice provider and returns one
concrete input: ``d_*`` return (spec, doc) for encode, ``r_*`` return (spec, raw)
for decode.  Nothing here calls the code under test."""
from . import ref
from .engine import Skip


def F(de="ascii", le="ascii", lt=0, ml=0, **kw):
    d = {"data_enc": de, "len_enc": le, "len_type": lt, "max_len": ml, "desc": "field"}
    d.update(kw)
    return d


# long, position dependent contents (prime periods)
_T = "".join(chr(33 + (i * 37 + i // 61) % 90) for i in range(61 * 97))
_H = "".join("0123456789ABCDEFabcdef"[(i * 7 + i // 251) % 22] for i in range(251 * 23))
TEXT = _T * 20
HEX = _H * 40
DIG = "1234567890" * 20


# ------------------------------------------------------------- envelopes

def _env(h, t, p, s, hv, tv):
    return {"h": h, "t": F(t, ml=2 if t == "b" else 4), "p": F(p, ml=8 if p == "b" else 16),
            "1": F(s, ml=8 if s == "b" else 16)}, ({"h": hv, "t": tv} if hv is not None else {"t": tv})


NOHDR = F(ml=0)
ENVS = [
    _env(NOHDR, "ascii", "ascii", "ascii", None, "0200"),
    _env(NOHDR, "b", "b", "b", None, "0210"),
    _env(F("ascii", ml=3), "cp500", "cp500", "b", "HDR", "0800"),
    _env(F("b", "bcd", 1, 20, len_count="nibbles", left_pad="0"), "ascii", "b", "ascii", "12345", "1804"),
    _env(F("cp500", "cp500", 2, 10), "b", "latin-1", "cp500", "", "FA10"),
    _env(F("b", "ascii", 0, 3, len_count="nibbles", right_pad="F"), "utf-8", "ascii", "ascii", "ABC", "AbC "),
]


def env(i):
    s, d = ENVS[i]
    return dict(s), dict(d)


# ------------------------------------------------------------- field configurations

PADS = [{}, {"left_pad": "0"}, {"right_pad": "F"}, {"left_pad": "a"}, {"right_pad": "0"},
        {"left_pad": "1", "right_pad": "2"}, {"left_pad": "", "right_pad": "f"}]
DATA = [("b", {})]
DATA += [("b", {"len_count": "bytes"})]
DATA += [("b", dict(len_count="nibbles", **p)) for p in PADS]
DATA += [("b", {"left_pad": "0"})]                       # pads have no effect on byte-counted fields
for _e in ("ascii", "cp500", "latin-1", "utf-8", "utf-16-le"):
    DATA += [(_e, {}), (_e, {"len_count": "nibbles", "left_pad": "0"})]
LENS = [("ascii", 0), ("b", 0)] + [(e, n) for e in ("ascii", "b", "bcd", "cp500") for n in (1, 2, 3, 4)]
# the representative subset used where the product would be too large
DATA_S = [DATA[0], DATA[2], DATA[3], DATA[4], DATA[5], DATA[10], DATA[11], DATA[12], DATA[16]]
LENS_S = [("ascii", 0), ("ascii", 1), ("ascii", 2), ("ascii", 3), ("b", 1), ("b", 2), ("bcd", 1), ("bcd", 2), ("cp500", 2)]
KEYS = ["2", "64", "66", "128", "129", "192", "h"]


def text_value(de, count, pat, pad="0"):
    """A value of `count` characters (digits for binary fields)."""
    if de == "b":
        if pat == 0:
            return ("1234567890ABCDEF" * (count // 16 + 1))[:count]
        if pat == 1:
            return ("fEdCbA9876543210" * (count // 16 + 1))[:count]
        if pat == 2:
            return (pad or "0") * count
        return "F" * count
    if pat == 0:
        return ("1234567890" * (count // 10 + 1))[:count]
    if pat == 1:
        return (" zA~b  " * (count // 7 + 1))[:count]
    if pat == 2:
        return ("é\x00ÿ" * count)[:count]
    return ("€😀a" * count)[:count]


def place(key, fs, envno):
    """Specification with `fs` at `key`, and a document without that key."""
    spec, doc = env(envno)
    spec[key] = fs
    if key == "h":
        spec["3"] = F("ascii", ml=2)
        doc.pop("h", None)
        doc["3"] = "XY"
    return spec, doc


def config(ch, data=DATA, lens=LENS, maxes=(0, 1, 2, 3, 5, 8)):
    de, extra = ch.pick(data)
    le, lt = ch.pick(lens)
    ml = ch.pick(maxes)
    return dict(data_enc=de, len_enc=le, len_type=lt, max_len=ml, desc="field", **extra)


PLACES_Q = [(0, "2"), (1, "2"), (2, "h"), (3, "64"), (1, "66"), (4, "128"), (0, "129"), (2, "192"), (1, "h"), (5, "2")]
PLACES_T = [(e, k) for k in KEYS for e in range(len(ENVS))]


def max_count(fs):
    n = fs["max_len"]
    if fs["data_enc"] == "b" and fs.get("len_count", "bytes") == "bytes":
        return 2 * n + 3
    return n + 2


def d_field(ch, thorough=False, places=None, data=DATA, lens=LENS, maxes=None):
    """D1: one field, full configuration matrix, all lengths around the limit."""
    e, key = ch.pick(places or (PLACES_T if thorough else PLACES_Q))
    fs = config(ch, data, lens, maxes or ((0, 1, 2, 3, 5, 8, 10) if thorough else (0, 1, 2, 5)))
    if key == "h" and fs["max_len"] == 0:
        raise Skip()
    count = ch.upto(max_count(fs))
    pat = ch.choose(4 if count else 1)
    spec, doc = place(key, fs, e)
    doc[key] = text_value(fs["data_enc"], count, pat, fs.get("left_pad") or fs.get("right_pad"))
    return spec, doc


_LQ = sorted(set(list(range(0, 131)) + list(range(196, 203)) + list(range(250, 260)) + list(range(508, 516)) + list(range(994, 1030))
                 + [1999, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193] + list(range(9996, 10004))
                 + [16383, 16384, 19998, 19999, 20000, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 99999, 100000, 100001]))
_LT = sorted(set(list(range(0, 2100)) + _LQ))
DATA_L = [DATA[0], DATA[2], DATA[3], DATA[4], DATA[10], DATA[11], ("cp500", {}), ("utf-8", {})]


def d_length(ch, thorough=False):
    """D2: length sweep with the limit just below, at and above the length, and at the prefix capacity."""
    de, extra = ch.pick(DATA_L)
    le, lt = ch.pick(LENS)
    n = ch.pick(_LT if thorough else _LQ)
    nib = extra.get("len_count") == "nibbles"
    if de == "b":
        count = n if nib else 2 * n
        val = HEX[:count]
    else:
        if nib:
            count, rem = divmod(n, 2)
            if rem:
                raise Skip()
        else:
            count = n
        val = TEXT[:count]
    ml = n + ch.pick((0, -1, 1))
    if ml < 0:
        raise Skip()
    fs = dict(data_enc=de, len_enc=le, len_type=lt, max_len=ml, desc="field", **extra)
    spec, doc = place("2", fs, 1 if de == "b" else 0)
    doc["2"] = val
    return spec, doc


# ------------------------------------------------------------- bitmaps

ALLF = [f for f in range(2, 193) if f != 65]
BSPEC = [dict(s, **{str(f): F("ascii", ml=2) for f in ALLF}) for s, _ in ENVS]
BND = [2, 64, 66, 128, 129, 192, 8, 9, 72, 73, 136, 137, 63, 67, 130, 191, 3, 127, 33, 97]


def fval(f):
    return "%02X" % f


def fieldset(ch, thorough=False, small=False):
    """A set of fields: singles, pairs, complements, ranges, boundary subsets, byte patterns."""
    kind = ch.choose(7 if thorough else 6)
    if kind == 0:
        m = ch.upto(12 if not thorough else 18)
        # all subsets of the first m boundary fields that contain the m-th
        if m == 0:
            return []
        bits = ch.choose(1 << (m - 1))
        return [BND[j] for j in range(m - 1) if bits >> j & 1] + [BND[m - 1]]
    if kind == 1:
        return [ch.pick(ALLF)]
    if kind == 2:
        i = ch.choose(len(ALLF))
        return [f for f in ALLF if f != ALLF[i]]
    if kind == 3:
        byte = ch.choose(24)
        v = ch.choose(256)
        full = ch.flag()
        out = []
        for f in ALLF:
            b, k = divmod(f - 1, 8)
            if (v >> (7 - k) & 1) if b == byte else full:
                out.append(f)
        return out
    if kind == 4:
        if small:
            raise Skip()
        i = ch.choose(len(ALLF))
        j = ch.upto(len(ALLF) - 1, i)
        return ALLF[i:j + 1]
    if kind == 5:
        if small:
            raise Skip()
        i = ch.upto(len(ALLF) - 1, 1)
        j = ch.choose(i)
        return [ALLF[j], ALLF[i]]
    i = ch.upto(len(ALLF) - 1, 2)
    j = ch.upto(i - 1, 1)
    k = ch.choose(j)
    return [ALLF[k], ALLF[j], ALLF[i]]


def order(fields, how):
    if how == 1:
        return fields[::-1]
    if how == 2:
        return fields[1::2] + fields[::2]
    return fields


def d_bitmap(ch, thorough=False, envs=None, small=False):
    """D3: which fields are present."""
    e = ch.pick(envs or ((0, 1, 2, 3, 4) if thorough else (0, 1, 2)))
    fields = fieldset(ch, thorough, small)
    how = ch.choose(3 if len(fields) > 2 else 2 if len(fields) == 2 else 1) if thorough else len(fields) % 3
    doc = dict(ENVS[e][1])
    for f in order(fields, how):
        doc[str(f)] = fval(f)
    return BSPEC[e], doc


# ------------------------------------------------------------- sequences of fields

SEQ = [
    (F("ascii", ml=2), ("AB",)),
    (F("ascii", "ascii", 2, 12), ("", "A", "1234567890", "ABCDEFGHIJKL")),
    (F("b", "b", 1, 4), ("", "0A", "DEADBEEF")),
    (F("b", "bcd", 1, 12, len_count="nibbles", left_pad="0"), ("", "1", "123", "0F", "12345678901")),
    (F("b", "ascii", 0, 3, len_count="nibbles", right_pad="F"), ("123", "FFF")),
    (F("cp500", "cp500", 3, 5), ("", "zz")),
    (F("utf-8", "b", 2, 6), ("€", "éa")),
    (F("b", ml=0), ("",)),
    (F("latin-1", "bcd", 2, 4, len_count="nibbles"), ("", "ÿ", "ab")),
]
SEQKEYS = [("2", "3", "4"), ("2", "64", "66"), ("64", "66", "129"), ("66", "128", "192"), ("9", "100", "150"), ("129", "130", "192"),
           ("10", "99", "101"), ("8", "9", "10")]


def d_seq(ch, thorough=False):
    """D4: three adjacent fields of every kind, spread over the bitmaps."""
    keys = ch.pick(SEQKEYS)
    e = ch.choose(len(ENVS)) if thorough else SEQKEYS.index(keys) % len(ENVS)
    spec, doc = env(e)
    for k in keys:
        fs, vals = ch.pick(SEQ)
        spec[k] = fs
        doc[k] = ch.pick(vals)
    return spec, doc


# ------------------------------------------------------------- values

CODECS1 = ["ascii", "latin-1", "cp500", "cp037", "cp1140", "cp1252", "cp437", "koi8-r"]
CODECSM = ["utf-8", "utf-16-le", "utf-16", "utf-32-be", "shift_jis", "gb18030", "utf-7", "big5", "euc_kr", "hz", "unicode_escape", "idna", "punycode"]
BADCH = ["\u0100", "\u20ac", "\ud800", "\udcff", "\u0660", "\uff11", "\U0001f600"]


def d_text(ch, thorough=False, codecs=None):
    """D5a: every character in every position of a short text value."""
    de = ch.pick(codecs or CODECS1 + CODECSM[:7])
    lt = ch.choose(2)
    n = ch.upto(3 if not thorough else 4, 1)
    pos = ch.choose(n)
    fill = ch.pick(("A", " ", "0") if thorough else ("A",))
    c = ch.choose(256 + len(BADCH))
    c = chr(c) if c < 256 else BADCH[c - 256]
    spec, doc = place("2", F(de, "ascii", 2 if lt else 0, 40 if lt else n), 0)
    val = fill * pos + c + fill * (n - pos - 1)
    if not lt:
        try:
            spec["2"]["max_len"] = len(val.encode(de))
        except Exception:
            pass
    doc["2"] = val
    return spec, doc


HEXCH = "0123456789ABCDEFabcdef"


def d_hex(ch, thorough=False, units=None):
    """D5b: every hex string up to a length, and every bad character in every position."""
    cfg = ch.pick(units or [{}, {"len_count": "nibbles"}, {"len_count": "nibbles", "left_pad": "0"}, {"len_count": "nibbles", "right_pad": "F"},
                   {"len_count": "nibbles", "left_pad": "b", "right_pad": "0"}])
    fixed = ch.flag()
    if ch.choose(2) == 0:
        n = ch.upto(4 if thorough else 3)
        val = "".join([ch.pick(HEXCH) for _ in range(n)])
    else:
        n = ch.upto(6, 1)
        pos = ch.choose(n)
        c = ch.choose(256 + len(BADCH))
        c = chr(c) if c < 256 else BADCH[c - 256]
        val = "1234567"[:pos] + c + "1234567"[pos + 1:n]
    nib = "len_count" in cfg
    units_ = len(val) if nib else len(val) // 2
    spec, doc = place("2", F("b", "b", 0 if fixed else 1, units_ if fixed else 20, **cfg), 1)
    doc["2"] = val
    return spec, doc


def d_codepoint(ch, thorough=False):
    """D5c: Unicode code points through the Unicode codecs."""
    de = ch.pick(["utf-8", "utf-16-le", "utf-8-sig", "utf-7"])
    hi = ch.choose(0x1100) if thorough else ch.pick(tuple(range(0x30)) + (0x30, 0x31, 0x32, 0x33, 0x4E, 0xAC, 0xD7, 0xD8, 0xDC, 0xDF, 0xE0, 0xF8, 0xF9, 0xFA, 0xFB, 0xFD, 0xFE, 0xFF, 0x100, 0x1D1, 0x1D4, 0x1F1, 0x1F6, 0x2F8, 0xE00, 0xE01, 0x10FF))
    lo = ch.choose(256)
    val = chr(hi * 256 + lo)
    spec, doc = place("2", F(de, "b", 2, 99), 0)
    doc["2"] = val + "x" if ch.flag() else val
    return spec, doc


# ------------------------------------------------------------- raw inputs

def envelope_raw(spec, doc, key):
    """Bytes up to and including the bitmaps for a message whose only field is `key`."""
    s = dict(spec)
    d = dict(doc)
    out, enc, _ = ref.encode(dict({k: v for k, v in d.items() if k in ("h", "t")}, **{key: ""}), dict(s, **{key: F("ascii", ml=0)}))
    return out


ALPHA = bytes([0x00, 0x01, 0x02, 0x10, 0x20, 0x30, 0x31, 0x39, 0x41, 0xF0, 0xF2, 0xFF, 0x0F])
ALPHA_S = bytes([0x00, 0x01, 0x30, 0x32, 0xF1, 0x0F, 0xFA])


def r_tail(ch, thorough=False, data=None, lens=None, maxes=None, deep=True):
    """R1: one announced field followed by every possible short tail."""
    if thorough:
        e, key = ch.pick([(0, "2"), (1, "66"), (3, "129"), (4, "2")])
        fs = config(ch, data or DATA, lens or LENS_S, maxes or (0, 1, 2, 3))
    else:
        fs = config(ch, data or DATA_S, lens or LENS_S, maxes or (1, 2, 3))
        e, key = [(0, "2"), (1, "129"), (2, "66")][(len(fs["data_enc"]) + fs["max_len"] + fs["len_type"]) % 3]
    spec, doc = place(key, fs, e)
    n = ch.upto(5 if thorough and deep else 4)
    if n <= 1:
        tail = bytes([ch.choose(256) for _ in range(n)])
    elif n == 2:
        tail = bytes([ch.choose(256), ch.choose(256)] if thorough else [ch.choose(256), ch.pick(ALPHA_S)])
    elif n == 3:
        tail = bytes([ch.pick(ALPHA if thorough else ALPHA_S) for _ in range(n)])
    else:
        tail = bytes([ch.pick(ALPHA_S if n == 4 and thorough else ALPHA_S[::2]) for _ in range(n)])
    return spec, envelope_raw(spec, doc, key) + tail


BASES = None


def bases():
    """Rich, valid messages: (spec, doc, raw) built by the reference encoder."""
    global BASES
    if BASES is None:
        BASES = []
        n = len(SEQ)
        for e in range(len(ENVS)):
            for i in range(n):
                spec, doc = env(e)
                keys = SEQKEYS[(e + i) % len(SEQKEYS)]
                for j, k in enumerate(keys):
                    fs, vals = SEQ[(i + j * (e + 1)) % n]
                    spec[k] = fs
                    doc[k] = vals[-1 if j else i % len(vals)]
                raw, enc, _ = ref.encode(doc, spec)
                BASES.append((spec, doc, raw))
        for e in range(len(ENVS)):
            spec, doc = env(e)
            raw, enc, _ = ref.encode(doc, spec)
            BASES.append((spec, doc, raw))
    return BASES


def r_mutate(ch, thorough=False, kinds=("trunc", "ext", "sub", "del", "ins", "swap")):
    """R2: every truncation, extension, substitution, deletion, insertion and transposition."""
    spec, doc, raw = ch.pick(bases())
    kind = ch.pick(kinds)
    if kind == "trunc":
        return spec, raw[:ch.choose(len(raw) + 1)]
    if kind == "ext":
        n = ch.upto(2, 1)
        return spec, raw + bytes([ch.choose(256) for _ in range(n)][:1] if n == 1 else [ch.pick(ALPHA), ch.pick(ALPHA)])
    i = ch.choose(len(raw))
    if kind == "sub":
        b = ch.choose(256) if thorough else ch.pick(_subs(raw[i]))
        return spec, raw[:i] + bytes([b]) + raw[i + 1:]
    if kind == "del":
        return spec, raw[:i] + raw[i + 1:]
    if kind == "ins":
        b = ch.choose(256) if thorough else ch.pick(ALPHA)
        return spec, raw[:i] + bytes([b]) + raw[i:]
    j = ch.choose(len(raw))
    if j >= i:
        raise Skip()
    r = bytearray(raw)
    r[i], r[j] = r[j], r[i]
    return spec, bytes(r)


_SUBCACHE = {}


def _subs(b):
    """Neighbouring, bit-flipped and special byte values."""
    v = _SUBCACHE.get(b)
    if v is None:
        v = sorted(set([b ^ (1 << k) for k in range(8)] + [(b + 1) & 255, (b - 1) & 255] + list(ALPHA)
                       + [0x2B, 0x2D, 0x5F, 0x2E, 0x3A, 0x66, 0x46, 0x47, 0x80, 0x99, 0x9A, 0xA9, 0xC1, 0x4E, 0x60, 0x40]) - {b})
        v = _SUBCACHE[b] = bytes(v)
    return v


def bitmap_bytes(fs, text):
    return ref.hexbytes(text) if fs["data_enc"] == "b" else text.encode(fs["data_enc"])




_B64 = sorted(set(list(range(0, 256, 11)) + [3, 5, 6, 7, 15, 31, 63, 127, 255, 240, 224, 192, 0x81, 0x18]))


def _mask(ch, ext, thorough):
    """A 64-bit bitmap value; `ext` says whether bit 1 is forced on."""
    kind = ch.choose(4)
    if kind == 0:
        v = ch.pick((0, 1, 1 << 62, (1 << 64) - 1 >> 1, 0x5555555555555555, 0x2AAAAAAAAAAAAAAA, 0x0123456789ABCDEF, 0x4040404040404040))
    elif kind == 1:
        v = 1 << ch.choose(63)
    elif kind == 2:
        v = ((1 << 63) - 1) ^ (1 << ch.choose(63))
    else:
        b = ch.choose(8)
        v = (ch.choose(256) if thorough else ch.pick(_B64)) << (8 * b) & ((1 << 63) - 1)
    return v | (1 << 63 if ext else 0)


_FEW = (0, 1, 1 << 62, (1 << 63) - 1, 0x2AAAAAAAAAAAAAAA)


def r_bitmap(ch, thorough=False, envs=None, missing=True):
    """R3: bitmaps of every shape followed by as many field bytes as announced (or one more / less)."""
    e = ch.pick(envs or ((0, 1, 2, 3, 4) if thorough else (0, 1, 2)))
    depth = ch.choose(3)
    which = ch.choose(depth + 1)
    vals = []
    for lvl in range(depth + 1):
        ext = lvl < depth
        if lvl == which:
            vals.append(_mask(ch, ext, thorough))
        else:
            vals.append(ch.pick(_FEW if thorough else _FEW[:2]) | (1 << 63 if ext else 0))
    if depth == 2:
        # the third bitmap is an extension: its bit 1 is field 129
        vals[2] |= (1 << 63) if ch.flag() else 0
    case = ch.choose(3) if BSPEC[e]["p"]["data_enc"] != "b" else 0
    spec = dict(BSPEC[e])
    # as announced; one less; one more; a field the specification does not define
    how = ch.choose(4 if missing else 3)
    fields = []
    for lvl, v in enumerate(vals):
        for b in range(64):
            if v >> (63 - b) & 1:
                f = 64 * lvl + b + 1
                if f not in (1, 65):
                    fields.append(f)
    if how == 3:
        if not fields:
            raise Skip()
        del spec[str(fields[ch.pick((0, -1) if len(fields) > 1 else (0,))])]
    body = "".join(fval(f) for f in fields).encode()
    if how == 1:
        if not body:
            raise Skip()
        body = body[:-1]
    elif how == 2:
        body += b"0"
    raw = envelope_raw(spec, ENVS[e][1], "2")
    raw = raw[:len(raw) - (8 if spec["p"]["data_enc"] == "b" else 16)]
    for lvl, v in enumerate(vals):
        fs = spec["1" if lvl else "p"]
        t = "%016X" % v
        if fs["data_enc"] == "b":
            raw += ref.hexbytes(t)
        else:
            t = t.lower() if case == 1 else "".join(c.lower() if i % 2 else c for i, c in enumerate(t)) if case == 2 else t
            raw += t.encode(fs["data_enc"])
    return spec, raw + body


_BITMAPBAD = [b"0123456789ABCDE ", b" 123456789ABCDEF", b"\t000000000000000", b"0x00000000000000", b"4000 00000000000", b"40_0000000000000",
              b"+400000000000000", b"-400000000000000", b"40000000000000GG", b"400000000000000\x00", b"                ", b"\n" * 16, b"4 0 0 0 0 0 0 0 "]


def r_bitmaptext(ch, thorough=False):
    """R3b: text bitmaps with every byte value in every position, and hand-picked near misses."""
    e = ch.pick((0, 2, 4, 3) if thorough else (0, 2))
    spec = BSPEC[e]
    lvl = ch.choose(3)
    raw = envelope_raw(spec, ENVS[e][1], "2")
    raw = raw[:len(raw) - (8 if spec["p"]["data_enc"] == "b" else 16)]
    if spec["1" if lvl else "p"]["data_enc"] == "b":
        raise Skip()
    base = ["C000000000000001", "8000000000000001", "8000000000000001"][:lvl] + ["4000000000000001"]
    for i in range(lvl):
        base[i] = "C000000000000001"
    parts = []
    for i, t in enumerate(base):
        fs = spec["1" if i else "p"]
        b = bitmap_bytes(fs, t)
        if i == lvl:
            if ch.choose(2) == 0:
                pos = ch.choose(16)
                b = b[:pos] + bytes([ch.choose(256)]) + b[pos + 1:]
            else:
                t = ch.pick(_BITMAPBAD)
                b = t.decode().encode(fs["data_enc"])
        parts.append(b)
    raw += b"".join(parts)
    try:
        bits = [int(x.decode(spec["1" if i else "p"]["data_enc"]), 16) if spec["1" if i else "p"]["data_enc"] != "b" else int(x.hex(), 16) for i, x in enumerate(parts)]
    except Exception:
        bits = [0]
    n = 0
    for i, v in enumerate(bits):
        n += bin(v & ((1 << 64) - 1)).count("1") - (1 if i < 2 and v >> 63 & 1 else 0)
    tail = ch.choose(3)
    return spec, raw + b"ZZ" * (n if tail == 0 else 0 if tail == 1 else 8)


_BCODECS = ["utf-8", "utf-16-le", "utf-16-be", "utf-16", "utf-32", "utf-32-le", "utf-8-sig", "utf-7", "shift_jis", "gb18030", "euc_jp", "hz", "iso2022_jp", "unicode_escape",
            "raw_unicode_escape", "cp037", "cp1252", "idna", "punycode"]
_BCHARS = ["é", "１", "٣", "²", "Ａ", "一", "\ufeff", "\\x34", "\\u0034", "\\", "+ADQ-", "~~", " ", "\x00", "\U0001d7d8", "0x", "_", "-"]


def _bitmap_texts(codec, thorough):
    """All 16-byte spellings of hex digits in a codec with one other character at any position."""
    out = []
    for digits in ("4000000000000000", "C000000000000001", "0000000000000000", "ABCDEFabcdef0123")[:4 if thorough else 2]:
        for c in [""] + _BCHARS:
            for n in range(17):
                for at in (range(n + 1) if thorough else sorted({0, 1, n // 2, n} & set(range(n + 1)))) if c else (0,):
                    try:
                        b = (digits[:at] + c + digits[at:n]).encode(codec)
                    except Exception:
                        continue
                    if len(b) == 16 and b not in out:
                        out.append(b)
    return out


_BT = {}


def r_bitmapcodec(ch, thorough=False):
    """R3c: text bitmaps whose 16 bytes are not 16 characters, or not 16 ASCII characters."""
    e = ch.pick((0, 1, 2) if thorough else (0, 2))
    lvl = ch.choose(3)
    codec = ch.pick(_BCODECS)
    spec = dict(BSPEC[e])
    key = "1" if lvl else "p"
    raw = envelope_raw(spec, ENVS[e][1], "2")
    raw = raw[:len(raw) - (8 if spec["p"]["data_enc"] == "b" else 16)]
    if lvl:
        raw += bitmap_bytes(spec["p"], "8000000000000000")
    spec[key] = F(codec, ml=16)
    if codec not in _BT:
        _BT[codec] = _bitmap_texts(codec, thorough)
    if lvl == 2:
        try:
            first = "8000000000000000".encode(codec)
        except Exception:
            raise Skip() from None
        raw += first
        if len(first) != 16:  # the codec cannot spell a bitmap: the secondary one already fails
            return spec, raw[: len(raw) - ch.choose(3)]
    raw += ch.pick(_BT[codec])
    return spec, raw + b"ZZ" * ch.pick((0, 1, 2, 3, 9))


_P2 = sorted(set(list(range(0, 20)) + list(range(90, 160)) + list(range(250, 262)) + [n * 4096 + m * 256 + k * 16 + j for n in (0, 1, 9, 10, 15) for m in (0, 1, 9, 10, 15)
                 for k in (0, 1, 9, 10, 15) for j in (0, 1, 9, 10, 15)]))


def _prefix_values(le, lt, thorough):
    if le in ("b", "bcd"):
        if lt == 1:
            return range(256)
        if lt == 2:
            return range(65536) if thorough else _P2
        return [0, 1, 5, 0x10, 0x99, 0x100, 0x9A, 0xA0, 0x10000, 0x010000, 0x990000, 0xA00000, 0x000110] + ([0x1000000, 0x99000000, 0xFFFFFFFF] if lt == 4 else [])
    return None


_DEV = [b" ", b"+", b"-", b"_", b".", b"\x00", b"\xff", b"\xb2", b"\xa0", b"a", b"e", b"x", b"\t", b"\n", b"\x1c", b":", b"/"]


_LOOKALIKE = {"utf-8": [("１".encode(), 1), ("٣2".encode(), 32), ("2٣".encode(), 23), ("1²".encode(), 12), ("²".encode() + b"1", 21), ("¼".encode() + b"1", 1), ("一".encode(), 1), (b"0b1", 1), (b"0x2", 2), (b"1e1", 10),
                        (b"1_2", 12), (b"+12", 12), (b"-00", 0), (b" 12", 12), (b"12 ", 12), (b"\n12", 12), (b"12\x00", 12), (b"1.0", 1), (b"\xc2\xa01", 1), (b"1\xc2\xa0", 1)],
              "latin-1": [(b"1\xb2", 12), (b"\xb2\xb3", 23), (b"\xb91", 11), (b"\xbd1", 1), (b"\xa01", 1), (b"1\x85", 1), (b"+1", 1), (b"-0", 0), (b"1.", 1), (b"\t1", 1)],
              "cp1252": [(b"\xb2", 2), (b"\xb9", 1), (b"\xbc", 0)]}


def r_prefix(ch, thorough=False):
    """R4: every length prefix, with one byte less, exactly, or one byte more data than it announces."""
    data = [DATA[0], DATA[2], DATA[3], DATA[4], DATA[10], DATA[11], DATA[12]]
    de, extra = ch.pick(data)
    le, lt = ch.pick([x for x in LENS if x[1]] + [("latin-1", 2), ("utf-8", 3), ("cp1252", 1)])
    vals = _prefix_values(le, lt, thorough)
    dev_ = False
    if vals is not None:
        v = ch.pick(vals)
        prefix = v.to_bytes(lt, "big")
        if le == "bcd":
            h = prefix.hex()
            # an invalid prefix is followed by as much data as some misreading of it would announce
            v = int(h) if h.isdigit() else ch.pick(sorted({v & 15, v, sum(int(c, 16) * 10 ** i for i, c in enumerate(h[::-1])), int("".join(c if c.isdigit() else "0" for c in h))}))
    else:
        kind = ch.choose(3 if le in _LOOKALIKE else 2)
        if kind == 2:
            dev_ = True
            prefix, v = ch.pick(_LOOKALIKE[le])
        elif kind == 0:
            if lt <= 2 or thorough:
                v = ch.choose(10 ** lt)
            else:
                v = ch.pick(sorted(set(list(range(0, 20)) + list(range(95, 112)) + [250, 255, 256, 257, 500, 510, 511, 512, 513, 990, 999] + ([1000, 1023, 1024, 9999] if lt == 4 else []))))
            prefix = (b"%%0%dd" % lt) % v
            if le == "cp500":
                prefix = prefix.decode().encode("cp500")
        else:
            dev_ = True
            pos = ch.choose(lt)
            dev = ch.pick(_DEV) if not thorough else bytes([ch.choose(256)])
            digs = ch.pick((b"0001", b"0012", b"1111"))[-lt:]
            if le == "cp500" and ch.flag():
                digs = digs.decode().encode("cp500")
                try:
                    dev = dev.decode("latin-1").encode("cp500")
                except Exception:
                    raise Skip() from None
            prefix = digs[:pos] + dev + digs[pos + 1:]
            left = int(digs[:pos] + digs[pos + 1:] or b"0") if digs.isdigit() else 3
            v = ch.pick(sorted({1, 0, 2, 12, left, left * 10}))
    if v > 20000:
        # far more than follows; what follows is as much as a truncated or signed misreading of the prefix would announce
        v = ch.pick((3, 0, 1))
    nib = extra.get("len_count") == "nibbles"
    avail = (v + 1) // 2 if nib else v
    avail += ch.pick((0, -1, 1) if not dev_ else (0, 1))
    if avail < 0:
        raise Skip()
    ml = ch.pick(((v, v - 1, 99999) if v else (v, 99999)) if not dev_ else (99999,))
    padc = ch.choose(2) if nib and de == "b" and v % 2 else 0
    body = TEXT[:avail].encode()
    if de == "b" and nib and v % 2:
        if "left_pad" in extra:
            body = (b"\x01" if padc == 0 else b"\x11") + body[1:]
        elif "right_pad" in extra:
            body = body[:-1] + (b"\x1f" if padc == 0 else b"\x11")
        body = body[:avail]
    elif de == "cp500":
        body = TEXT[:avail].encode("cp500")
    fs = dict(data_enc=de, len_enc=le, len_type=lt, max_len=ml, desc="field", **extra)
    spec, doc = place("2", fs, 1)
    return spec, envelope_raw(spec, doc, "2") + prefix + body


def r_value(ch, thorough=False):
    """R6: every byte value (single-byte codecs) and every byte pair (multi-byte codecs) as field data."""
    multi = ch.flag()
    de = ch.pick(CODECSM if multi else CODECS1 + ["b"])
    n = ch.upto(3, 1)
    if n == 1:
        data = bytes([ch.choose(256)])
    elif n == 2:
        data = bytes([ch.choose(256), ch.choose(256) if multi or thorough else ch.pick(ALPHA)])
    else:
        pos = ch.choose(3)
        b = bytearray(ch.pick((b"AAA", b"   ", b"\x40\x40\x40")))
        b[pos] = ch.choose(256)
        data = bytes(b)
    lt = ch.choose(2)
    spec, doc = place("2", F(de, "b", lt, n), 1)
    return spec, envelope_raw(spec, doc, "2") + (bytes([n]) if lt else b"") + data


def r_nibbles(ch, thorough=False):
    """R7: every data byte value with every pad configuration, announced length, side and position."""
    pads = [{}] + [{s: c} for s in ("left_pad", "right_pad") for c in ("0123456789ABCDEFabcdef" if thorough else "09AFaf")] + [
        {"left_pad": "1", "right_pad": "2"}, {"left_pad": "", "right_pad": "F"}, {"left_pad": "F", "right_pad": ""}, {"left_pad": "", "right_pad": ""}]
    p = ch.pick(pads)
    lt = ch.choose(2)
    n = ch.upto(6)
    nb = (n + 1) // 2
    if nb == 0:
        body = b""
    elif nb == 1:
        body = bytes([ch.choose(256)])
    elif ch.flag():
        body = bytes([ch.choose(256)]) + b"\x12\x34"[:nb - 1]
    else:
        body = b"\x12\x34"[:nb - 1] + bytes([ch.choose(256)])
    spec, doc = place("2", F("b", "bcd", lt, n if lt == 0 else 9, len_count="nibbles", **p), 1)
    return spec, envelope_raw(spec, doc, "2") + (bytes([n]) if lt else b"") + body
