"""C01-C10, C14, C15, C19, C20: encode and decode over exhaustively enumerated inputs."""
import json
import os

from .. import judges as J
from .. import ref
from .. import spaces as S
from ..api import std as A
from ..engine import Harness, Skip, Violation
from ..spaces import F

BOUNDS = {
    "d_field": "one field x {envelope, key} places x 20 data encodings/units/pads x 18 length encodings x maxima {0,1,2,5} (thorough {0,1,2,3,5,8,10}) x every length up to 2 over the maximum x 4 value patterns",
    "d_length": "8 data encodings x 18 length encodings x lengths 0-130 and all byte/decimal boundaries up to 100001 (thorough: all to 2100) x maximum in {n-1,n,n+1}",
    "d_bitmap": "field sets: all subsets of the first 12 (thorough 18) boundary fields, all singles, pairs, ranges, complements of singles, every byte value of all 24 bitmap bytes with the rest empty/full (thorough: triples) x bitmap encodings",
    "d_seq": "all triples of 9 field kinds and their values x 8 placements over the three bitmaps (thorough: x 6 envelopes)",
    "d_text": "every character 0-255 and 7 others in every position of values of length 1-3 (thorough 4) x codecs x fixed/variable",
    "d_hex": "every hex string to length 3 (thorough 4) over 22 digits, every character in every position of 1-6 digit values x 5 unit/pad settings x fixed/variable",
    "d_codepoint": "code points 0-0x2FFF (thorough: all) x 4 Unicode codecs",
    "r_tail": "announced field x configurations (thorough: x 4 places) x every tail: all of length 0-1, length 2 over 256x7 (thorough 256x256), length 3 over 7 (13) bytes, length 4 over 4 (7), thorough also length 5 over 4",
    "r_mutate": "60 rich messages x every truncation, 1-2 byte extension, substitution (thorough: 256 values), deletion, insertion, transposition",
    "r_bitmap": "0-2 follow-up bitmaps x single bits, complements, byte patterns, special masks x exact / short / long body / undefined field x upper/lower/mixed case",
    "r_bitmaptext": "text bitmaps with every byte value in every position of each of the three bitmaps, 13 near misses x 3 bodies",
    "r_bitmapcodec": "19 multi-byte, stateful and escape codecs x three bitmaps x every 16-byte spelling of up to 16 digits with one of 18 other characters (quick: at 4 positions) x 5 bodies",
    "r_prefix": "8+ data encodings x 19 length encodings x every prefix value (1 and 2 bytes; boundary values of 3 and 4) and every deviant character in every position x data one byte short/exact/long x maximum at/below the value",
    "r_value": "every byte value / byte pair as field data x 22 codecs x fixed/variable",
    "r_nibbles": "every data byte value x pads x announced nibble lengths 0-6 x fixed/variable",
}


def H(space, judge, tier, name=None, bound=None, post=None, **kw):
    fn = getattr(S, space)
    th = tier == "thorough"

    def run(ch):
        spec, x = fn(ch, thorough=th, **kw)
        if post is not None:
            spec, x = post(ch, spec, x)
        return judge(spec, x)

    return Harness(name or "%s/%s" % (space, judge.__name__), run, bound or BOUNDS[space])


NIB = [d for d in S.DATA if d[1].get("len_count") == "nibbles"]
ASSUME_WF = ["specifications are well formed (header, type and primary bitmap defined; documented properties with documented value types, length prefixes of at most 1000 bytes)"]


def d_pairs(ch, thorough=False):
    """Every pair of characters: no sequence is folded into another one."""
    de = ch.pick(("latin-1", "cp500", "utf-8") if thorough else ("latin-1", "cp500"))
    a, b = ch.choose(256), ch.choose(256)
    v = chr(a) + chr(b)
    lt = ch.choose(2) * 2
    spec, doc = S.place("2", F(de, "ascii", lt, len(v.encode(de))), 0)
    doc["2"] = v
    return spec, doc
S.d_pairs = d_pairs
BOUNDS["d_pairs"] = "all pairs of the first 256 characters x latin-1, cp500 (thorough: utf-8) x fixed/variable"

def d_combining(ch, thorough=False):
    """A letter and a mark (also Hangul, variation selectors, joiners): sequences that have another canonical form."""
    de = ch.pick(("utf-8", "utf-16-le"))
    a = ch.pick("AaEeOoUuNnCcKkÅÇ\u03a9\u0415\u1100\uac00\u0627\u4e2d\u2460f\U0001f600" if not thorough else [chr(i) for i in range(0x20, 0x250)])
    b = ch.pick(list(range(0x300, 0x370)) + list(range(0x1160, 0x1176)) + list(range(0x11A7, 0x11C3)) + [0x653, 0x654, 0x655, 0x200B, 0x200C, 0x200D, 0xFE0E, 0xFE0F, 0x1F3FB, 0xE0100, 0x3099, 0x309A, 0x20DD])
    v = a + chr(b)
    spec, doc = S.place("2", F(de, "ascii", 2, 20), 0)
    doc["2"] = v
    return spec, doc
S.d_combining = d_combining
BOUNDS["d_combining"] = "23 (thorough 560) base characters x 175 combining and joining characters x 2 codecs"

def d_escapes(ch, thorough=False):
    """Text that looks escaped, quoted or marked up."""
    de = ch.pick(("ascii", "latin-1", "cp500", "utf-8"))
    v = ch.pick(("%41", "=41", "=\r\n", "\\n", "\\x41", "\\u0041", "&amp;", "&#65;", "&lt;", "+AGE-", "\x1b[0m", "\x0e\x0f", "''", '""', '"a"', "'a'", "b'a'", "u'a'", "0x41", "1e3", "1,000", "1_000", "None", "null", "nan", "True", "{x}", "%s", "$x", "<a>",
                 "a\r\nb", "a\rb", "a\n", "\ta", "~", "^a", "\x7f", "\x08a", "a\x00b", "ab\x03", "\x02ab\x03", "\x1cab", "0200", "00000", "+1", "-1", "1.0", "1.", ".5", "  1", "C123", "D123", "D00000012", "1234=99", "1234D99", "9" * 40))
    lt = ch.choose(2) * 2
    pre, post = ch.pick(("", "x", " ")), ch.pick(("", "x", " "))
    v = pre + v + post
    key, e = ch.pick((("2", 0), ("66", 1), ("35", 0), ("129", 0)))
    spec, doc = S.place(key, F(de, "ascii", lt, len(v)), e)
    doc[key] = v
    return spec, doc
S.d_escapes = d_escapes
BOUNDS["d_escapes"] = "53 texts that look like escapes, numbers, quotes, control or track data x 3 x 3 neighbours x 4 codecs x fixed/variable x 4 fields"


def _settings(ch, keys):
    """A type or bitmap entry with every combination of length settings, which must have no influence."""
    key = ch.pick(keys)
    de = ch.pick(("b", "ascii", "cp500", "utf-8", "latin-1"))
    fs = F(de, ch.pick(("ascii", "b", "bcd", "nonsense-codec")), ch.choose(5), ch.pick((4, 0, -1, 1, 2, 3, 5, 8, 16, 17, 99)))
    lc = ch.pick((None, "bytes", "nibbles"))
    if lc:
        fs["len_count"] = lc
    pad = ch.pick((None, "left_pad", "right_pad"))
    if pad:
        fs[pad] = "0"
    e = ch.choose(2)
    spec, doc = S.env(e)
    spec = dict(spec)
    spec[key] = fs
    doc["t"] = "0210"
    spec["2"] = spec["66"] = spec["129"] = F("ascii", ml=1)
    return key, spec, doc


def _settings_spaces(name, keys):
    def d(ch, thorough=False):
        key, spec, doc = _settings(ch, keys)
        doc.update(ch.pick(({}, {"2": "x"}, {"129": "x"})))
        if key == "t":
            doc["t"] = ch.pick(("0210", "021", "02", "", "02100"))
        return spec, doc

    def r(ch, thorough=False):
        key, spec, doc = _settings(ch, keys)
        doc.update(ch.pick(({}, {"2": "x"}, {"129": "x"})))
        raw = ref.encode(doc, dict(spec))[0]
        how = ch.choose(4)
        if how == 1:
            raw = raw[:-1]
        elif how == 2:
            raw += b"0"
        elif how == 3:
            i = len(ref.encode(dict(doc), spec)[1].get("h", {}).get("data", b""))
            raw = raw[:i] + b"\x04" + raw[i:]
        return spec, raw
    setattr(S, "d_" + name, d)
    setattr(S, "r_" + name, r)
    BOUNDS["d_" + name] = "entries %s: 5 encodings x 4 length encodings x 5 length types x 11 maxima x 3 units x 3 pads x 2 envelopes x 3-15 dictionaries" % "/".join(keys)
    BOUNDS["r_" + name] = "entries %s: 5 encodings x 4 length encodings x 5 length types x 11 maxima x 3 units x 3 pads x 2 envelopes x 3 messages, also cut, extended and with a byte inserted" % "/".join(keys)


_settings_spaces("typesettings", ("t",))
_settings_spaces("bitmapsettings", ("p", "1"))


# ---- every field number: nothing depends on which field it is, on the message type or on the description

_TABLE = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shipped_tables.json")))["default"]
NUM_KEYS = ["h"] + [str(f) for f in range(2, 193) if f != 65]
NUM_TEXT = ["", "0", " ", "4111111111111111", "4111111111111112", "411111******1111", "4111111111111111=25121011234567890000", "4111111111111111D25121011234567890000", ";4111111111111111=2512?", "B4111111111111111^DOE/JOHN ^2512101",
            "000000000000", "C00000100", "D00000100", "-100", "1.00", "  x", "x  ", "00012", "840", "USD", "0230", "1345", "9999", "991332", "ABCdef", "abcdef", "ABCDEF", "  12  ", "\x00\x01\x1c\x7f", "9F2608", "00" * 8, "FFFFFFFFFFFFFFFF", "".join(map(chr, range(32, 127))), "é\xa0ÿ"]
NUM_HEX = ["", "0", "00", "F", "0F", "F0", "0123456789ABCDEF", "4111111111111111", "4111111111111111D2512", "9F2608a1b2c3d4e5f60718", "00" * 8, "FFFFFFFFFFFFFFFF", "ffff", "20" * 3, "40404040", "8A023030", "00000"]
# every first and last character, digits of every length: with fewer configurations
NUM_MORE = [chr(c) + "00000100" for c in range(32, 127) if chr(c) != "0"] + ["1234567" + chr(c) for c in range(32, 127)] + [("12345678901" * 5)[:n] for n in range(1, 46)]
NUM_MORE_HEX = [("12345678901" * 5)[:n] for n in range(2, 46, 2)] + ["%02x00" % c for c in range(256)]
_MORE = frozenset(NUM_MORE + NUM_MORE_HEX)
NUM_BAD_TEXT = ["\u20ac" * 3, "x" * 121, "\ud800"]
NUM_BAD_HEX = ["zz", "0x", " 1", "0" * 242, "12=3", "\u0661\u0662"]
NUM_CONF = [("ascii", "ascii", 2, {}), ("ascii", "ascii", 0, {}), ("cp500", "b", 1, {}), ("latin-1", "bcd", 2, {"len_count": "nibbles"}), ("b", "b", 1, {}), ("b", "b", 0, {}),
            ("b", "bcd", 2, {"len_count": "nibbles", "left_pad": "0"}), ("b", "ascii", 0, {"len_count": "nibbles", "right_pad": "F"})]
NUM_TYPES = ["0200", "0100", "0110", "0210", "0220", "0320", "0400", "0410", "0420", "0421", "0500", "0620", "0800", "0810", "1100", "1804", "2100", "9999", "0000", "ABCD"]


def _number(ch, values_t, values_b, thorough, light=False):
    key = ch.pick(NUM_KEYS)
    more = not light and values_t is NUM_TEXT and ch.flag()
    if more:
        de, le, lt, kw = ch.pick(NUM_CONF[1:5:3]) if not thorough else ch.pick(NUM_CONF[:6])
        v = ch.pick(NUM_MORE if de != "b" else NUM_MORE_HEX)
    else:
        de, le, lt, kw = ch.pick(NUM_CONF)
        v = ch.pick(values_b if de == "b" else values_t)
    if thorough and not more:
        e, t = ch.choose(2), ch.pick(NUM_TYPES)
    else:
        i = len(v) + len(key) * 3 + (0 if key == "h" else int(key))
        e, t = i % 2, NUM_TYPES[i % len(NUM_TYPES)]
    spec, doc = S.env(e)
    doc["t"] = t
    doc[key] = v
    ml = 120
    if not lt:
        try:
            ml = _units(v, {"data_enc": de, "max_len": 0, **kw})
        except Exception:
            ml = 3
        ml = min(ml, 120)
    if key == "h" and ml == 0:
        raise Skip()
    fs = F(de, le, lt, ml, **kw)
    d = "field" if light else None if more else ch.pick(("field", None, ""))
    fs["desc"] = _TABLE.get(key, _TABLE["2"])["desc"] if d is None else d
    spec[key] = fs
    if key == "h":
        spec["2"], doc["2"] = F(ml=1), "x"
    return spec, doc


def d_number(ch, thorough=False):
    return _number(ch, NUM_TEXT, NUM_HEX, thorough)


def d_badnumber(ch, thorough=False):
    return _number(ch, NUM_BAD_TEXT + NUM_TEXT[:3], NUM_BAD_HEX + NUM_HEX[:3], thorough)


def r_number(ch, thorough=False, light=False):
    spec, doc = _number(ch, NUM_TEXT[::3] if light else NUM_TEXT, NUM_HEX[::2] if light else NUM_HEX, thorough and not light, light)
    try:
        raw = ref.encode(doc, spec)[0]
    except ref.Bad:
        raise Skip() from None
    how = ch.choose(1 if light or any(v in _MORE for v in doc.values()) else 5)
    if how == 1:
        raw = raw[:-1]
    elif how == 2:
        raw += b"0"
    elif how == 3:
        raw = raw[:-1] + bytes([raw[-1] ^ 0x80])
    elif how == 4:
        i = max(len(raw) - 1 - len(doc.get("h", "")) % 3, 0)
        raw = raw[:i] + b"\x3a" + raw[i + 1:]
    return spec, raw


def d_type(ch, thorough=False):
    """Every message type."""
    te = ch.pick(("ascii", "b", "cp500"))
    if ch.flag():
        a, b = ch.choose(100), ch.choose(100)
        t = "%02d%02d" % (a, b)
    else:
        t = "%02X%02X" % (ch.choose(256), ch.choose(256) if thorough else ch.pick((0, 0x0A, 0x10, 0xA0, 0xFF)))
    e = 0
    spec, doc = S.env(e)
    spec["t"] = F(te, ml=2 if te == "b" else 4)
    doc["t"] = t
    for k, v in (("2", "12"), ("39", "00"), ("66", "1"), ("130", "z")):
        spec[k] = F("ascii", "ascii", 2, 9)
    doc.update(ch.pick(({}, {"2": "12", "39": "00"}, {"66": "1", "130": "z"})))
    return spec, doc


def r_type10(ch, thorough=False):
    spec, doc = d_type(ch, thorough)
    return spec, ref.encode(doc, spec)[0]


for _n, _f, _b in (("d_number", d_number, "every field 2-192 and the header x 8 configurations x 34 texts or 17 hex strings (card, track, amount, date, TLV data; whole alphabets) x 3 descriptions (also the documented one); also every first and last character and digits of every length to 45; x message types (thorough: x 20 types x 2 envelopes)"),
                   ("d_badnumber", d_badnumber, "every field 2-192 and the header x 8 configurations x 6-9 values that do not fit x 3 descriptions"),
                   ("r_number", r_number, "messages of d_number, exact, cut, extended and with two kinds of wrong last byte"),
                   ("d_type", d_type, "all 10000 decimal message types and 1280 (thorough 65536) hexadecimal ones x 3 encodings x 3 sets of fields"),
                   ("r_type10", r_type10, "all 10000 decimal message types and 1280 (thorough 65536) hexadecimal ones x 3 encodings x 3 sets of fields")):
    setattr(S, _n, _f)
    BOUNDS[_n] = _b


# ---- wide length prefixes, equal values in unlike fields, long messages

WIDTHS = [5, 6, 7, 8, 9, 10, 12, 16, 18, 19, 20, 32, 64, 100, 255, 1000]
WIDE_DATA = [S.DATA[0], S.DATA[3], S.DATA[4], S.DATA[2], S.DATA[11], S.DATA[12], ("cp500", {})]


def _wide(ch, thorough, short=False):
    short = short and not thorough
    de, extra = ch.pick(WIDE_DATA[:5] if short else WIDE_DATA)
    le, lt = ch.pick(("ascii", "b", "bcd", "cp500")), ch.pick((5, 6, 7, 8, 9, 16, 20, 100) if short else WIDTHS)
    nib = extra.get("len_count") == "nibbles"
    n = ch.pick((0, 1, 2, 3, 9, 10, 12, 99, 100, 255, 256, 999, 1000, 1001, 9999, 10000, 65535, 65536, 100000) if thorough or lt < 7 and not short else (0, 1, 2, 10, 100, 256, 1000))
    if de == "b":
        v = S.HEX[:n if nib else 2 * n]
    elif nib and n % 2:
        raise Skip()
    else:
        v = S.TEXT[:n // 2 if nib else n]
    ml = n + ch.pick((0, 1, 10 ** 6, -1))
    if ml < 0:
        raise Skip()
    key, e = ch.pick((("2", 0), ("130", 1))[n % 2:][:1] if short else (("2", 0), ("130", 1)))
    spec, doc = S.place(key, F(de, le, lt, ml, **extra), e)
    doc[key] = v
    spec["192"], doc["192"] = F("ascii", "ascii", 1, 9), "end"
    return spec, doc, key, lt


def d_wide(ch, thorough=False):
    return _wide(ch, thorough)[:2]


def r_wide(ch, thorough=False):
    spec, doc, key, lt = _wide(ch, thorough, True)
    wire = dict(spec, **{key: dict(spec[key], max_len=10 ** 9)})
    try:
        raw, enc, _ = ref.encode(dict(doc), wire)
    except ref.Bad:
        raise Skip() from None
    at = 0
    for k in enc:
        if k == key:
            break
        at += len(enc[k]["len"]) + len(enc[k]["data"])
    how = ch.choose(6)
    if how == 1:
        raw = raw[:at + ch.pick((0, 1, lt // 2, lt - 1, lt))]
    elif how == 2:
        if not thorough and len(doc[key]) not in (0, 10, 20, 256):
            raise Skip()
        i = at + ch.pick((0, 1, lt // 2, lt - 2, lt - 1) if thorough else (0, lt // 2, lt - 1))
        raw = raw[:i] + ch.pick((b"\x00", b"\x01", b" ", b"-", b"+", b"_", b"\xff", b"\x9a", b"1", b"\x80", b"9", b"\xf1")) + raw[i + 1:]
    elif how == 3:
        raw = raw[:at] + ch.pick((b"9", b"\x99", b"\xf9", b"\xff")) * lt + raw[at + lt:]
    elif how == 4:
        raw = raw[:-ch.pick((1, 4, 5))]
    elif how == 5:
        raw += b"x"
    return spec, raw


SAME_LENS = [("ascii", 0), ("ascii", 2), ("b", 1), ("bcd", 1), ("cp500", 3)]


def d_same(ch, thorough=False):
    """Two fields with the same value and unlike configurations, a third one like the first."""
    a, b = ch.pick(S.DATA), ch.pick(S.DATA)
    la, lb = ch.pick(SAME_LENS), ch.pick(SAME_LENS)
    v = ch.pick(("1234", "AB", "123", "") if not thorough else ("1234", "AB", "123", "", "ab12", "0", "\xe9", "00"))
    keys = ch.pick((("2", "3", "66"), ("64", "66", "130")))
    spec, doc = S.env(ch.choose(2))
    for k, (de, kw), (le, lt) in zip(keys, (a, b, a), (la, lb, la)):
        n = 9
        if not lt:
            try:
                n = _units(v, {"data_enc": de, **kw})
            except Exception:
                n = len(v)
        spec[k] = F(de, le, lt, n, **kw)
        doc[k] = v
    return spec, doc


def _offset(ch, thorough):
    """A long field, then fields of other kinds: everything behind it is far from the start."""
    n = ch.pick(S._LT if thorough else S._LQ)
    de, le = ch.pick((("b", "b"), ("ascii", "ascii"), ("cp500", "bcd")))
    spec, doc = S.env(1)
    keys = ch.pick((("2", "3", "4"), ("64", "66", "129")))
    spec[keys[0]] = F(de, le, 6, 10 ** 6)
    doc[keys[0]] = S.HEX[:2 * n] if de == "b" else S.TEXT[:n]
    fs, vals = ch.pick(S.SEQ)
    spec[keys[1]], doc[keys[1]] = fs, vals[-1]
    spec[keys[2]], doc[keys[2]] = F("ascii", "ascii", 2, 9), "tail"
    return spec, doc


def d_offset(ch, thorough=False):
    return _offset(ch, thorough)


def r_offset(ch, thorough=False):
    spec, doc = _offset(ch, thorough)
    raw = ref.encode(dict(doc), spec)[0]
    how = ch.choose(5)
    if how == 1:
        raw = raw[:-1]
    elif how == 2:
        raw = raw[:-6]
    elif how == 3:
        raw = raw[:-6] + b"zz" + raw[-4:]
    elif how == 4:
        raw += b"0"
    return spec, raw


def _codec_names(thorough):
    import encodings.aliases as al
    every = set(al.aliases.values()) | {"utf-8-sig", "cp856", "cp1006", "utf_16_le", "cp737"}
    names = every | set(al.aliases) | {n.upper() for n in every} | {n.replace("_", "-") for n in every}
    names |= {"b", "B", "bcd", "BCD", "Bcd", "", " ", "b ", " b", "bb", "bc", "cd", "binary", "bytes", "byte", "hex", "ebcdic", "EBCDIC", "ASCII", " ascii", "ascii ", "asci", "text", "raw", "none", "None", "nibbles", "bin", "x" * 300, "idna", "punycode", "unicode_escape", "raw_unicode_escape", "undefined", "mbcs", "\xe9", "utf-8\n"}
    return sorted(names)


CV = ("", "0", "12", "A1", "0F", "Az", "1A2B", "-~", "\xe9", "\u20ac", "\u0414\u042f", "\u3042", "\xac[", "ab\n")
CN = {}


def _codecs(ch, thorough):
    if thorough not in CN:
        CN[thorough] = _codec_names(thorough)
    n = ch.pick(CN[thorough])
    role = ch.choose(8)
    spec, doc = S.env(ch.choose(2) if role < 4 else 0)
    spec["3"] = F("ascii", ml=1)
    doc["3"] = "+"
    if role == 0:
        spec["2"] = F(n, "ascii", 2, 20)
        v = doc["2"] = ch.pick(CV)
    elif role == 1:
        v = doc["2"] = ch.pick(CV)
        try:
            ml = len(v.encode(n))
        except Exception:
            ml = len(v)
        spec["2"] = F(n, "b", 0, ml)
    elif role == 2:
        spec["2"] = F(ch.pick(("ascii", "b")), n, ch.pick((1, 2, 3, 4, 8)), 300)
        v = doc["2"] = "12" * ch.pick((0, 1, 5, 6, 50))
    elif role == 3:
        spec["2"] = F(n, n, ch.pick((2, 3)), 99, len_count=ch.pick(("bytes", "nibbles")))
        v = doc["2"] = ch.pick(CV[:8])
    elif role == 4:
        spec["h"] = F(n, n if ch.flag() else "b", 2, 30)
        v = doc["h"] = ch.pick(CV)
    elif role == 5:
        spec["t"] = F(n, ml=4)
        v = doc["t"] = ch.pick(("0200", "0A1f", "02", "\xe9100", "02000200"))
    else:
        spec["p"] = F(n, ml=16)
        if role == 7:
            spec["1"] = F(ch.pick(("ascii", "b")), ml=16)
            spec["66"] = F(n, "ascii", 2, 20)
            v = doc["66"] = "12"
        else:
            spec["1"] = F(n, ml=16)
            spec["130"] = F("ascii", ml=1)
            doc["130"] = "x"
    return spec, doc


def d_codecs(ch, thorough=False):
    return _codecs(ch, thorough)


def r_codecs(ch, thorough=False):
    spec, doc = _codecs(ch, thorough)
    lax = {k: dict(v, max_len=max(v["max_len"], 0)) for k, v in spec.items()}
    try:
        raw = bytes(ref.encode(dict(doc), lax)[0])
    except ref.Bad:
        # not something this codec spells: the bytes another one would write
        other = {k: dict(v) for k, v in spec.items()}
        for v in other.values():
            for a in ("data_enc", "len_enc"):
                if v[a] not in ("ascii", "b", "bcd"):
                    v[a] = "utf-8"
        try:
            raw = bytes(ref.encode(dict(doc), other)[0])
        except ref.Bad:
            raise Skip() from None
    how = ch.choose(4)
    if how == 1:
        raw = raw[:-2]
    elif how == 2:
        raw = raw[:-1] + b"\xff" + raw[-1:]
    elif how == 3:
        raw = raw[:len(raw) // 2] + b"0" + raw[len(raw) // 2:]
    return spec, raw


_BW = "length prefixes of 16 widths 5-1000 x 4 length encodings x 7 data encodings and units x lengths to 100000 x limits around the length x 2 places, another field behind"
for _n, _f, _b in (("d_wide", d_wide, _BW), ("r_wide", r_wide, "length prefixes of 8 (16) widths 5-100 (1000) x 4 length encodings x 5 (7) data encodings and units x 7 (19) lengths x limits around the length, another field behind; exact, cut inside and behind the prefix, wrong characters in it, all nines, cut and extended at the end"),
                   ("d_codecs", d_codecs, "every name of every codec of the interpreter, in several spellings, and 40 names that are close to b, bcd and ascii, as the encoding of data, of lengths, of header, type and bitmaps x 14 values, fixed and variable, bytes and nibbles"),
                   ("r_codecs", r_codecs, "the messages of d_codecs (or what another codec writes), exact, cut, and with a byte put in"),
                   ("d_same", d_same, "three fields with the same value, all pairs of 20 data encodings/units/pads x 5 length encodings x 4 (8) values x 2 placements x 2 envelopes"),
                   ("d_offset", d_offset, "a field of each of 190 (2100) lengths to 100001 x 3 encodings, then 9 kinds of fields and a last one, x 2 placements"),
                   ("r_offset", r_offset, "a field of each of 190 (2100) lengths to 100001 x 3 encodings, then 9 kinds of fields and a last one, x 2 placements; exact, two cuts, a bad prefix, extra data")):
    setattr(S, _n, _f)
    BOUNDS[_n] = _b


def c01(tier):
    j = J.enc_roundtrip
    hs = [H(s, j, tier) for s in ("d_field", "d_length", "d_bitmap", "d_seq", "d_text", "d_hex", "d_codepoint", "d_pairs", "d_combining", "d_escapes", "d_number", "d_type", "d_wide", "d_same", "d_offset", "d_codecs")]
    return hs, {"assumptions": ASSUME_WF + ["values a codec does not represent losslessly are excluded (counted in outcomes)"]}


def c02(tier):
    j = J.dec_roundtrip
    hs = [H(s, j, tier) for s in ("r_tail", "r_mutate", "r_bitmap", "r_bitmaptext", "r_bitmapcodec", "r_prefix", "r_value", "r_nibbles", "r_number", "r_type10", "r_wide", "r_offset", "r_codecs")]
    hs[0] = H("r_tail", j, tier, lens=S.LENS_S if tier == "thorough" else S.LENS_S[:1] + S.LENS_S[1:3] + S.LENS_S[4:5] + S.LENS_S[6:7])
    return hs, {"assumptions": ASSUME_WF}


# ---- C03: also specifications that miss fields and codecs that fail in every way

EXCS = [ValueError("x"), KeyError("x"), LookupError("x"), UnicodeError("x"), TypeError("x"), OSError("x"), RecursionError("x"), MemoryError("x"),
        AssertionError("x"), StopIteration(), AttributeError("x"), OverflowError("x"), ZeroDivisionError("x"), RuntimeError("x")]
_FAULT = [None]


def _register_codec():
    import codecs

    def dec(b, errors="strict"):
        f = _FAULT[0]
        if isinstance(f, Exception):
            raise f
        if f is not None:
            return f, len(b)
        return codecs.latin_1_decode(b, errors)

    def enc(s, errors="strict"):
        f = _FAULT[0]
        if isinstance(f, Exception):
            raise f
        if f is not None:
            return f, len(s)
        return codecs.latin_1_encode(s, errors)

    def search(name):
        if name == "mcfault":
            return codecs.CodecInfo(enc, dec, name="mcfault")
        return None

    codecs.register(search)


_register_codec()
WEIRD = ["nonsense-codec", "hex", "base64", "rot13", "undefined", "idna", "punycode", "unicode_escape", "raw_unicode_escape", "utf-7", "utf-16",
         "utf-32", "utf-8-sig", "mbcs", "shift_jis", "hz", "zlib", "mcfault"]
PLACES = ["h", "t", "p", "1", "2", "66", "2len", "hlen"]


def _rich_spec(e):
    spec, doc = S.env(e)
    spec["h"] = F("ascii", "ascii", 1, 6)
    doc["h"] = "HD"
    spec["2"] = F("ascii", "ascii", 2, 19)
    spec["66"] = F("latin-1", "b", 1, 9)
    doc["2"] = "12345"
    doc["66"] = "xyz"
    return spec, doc


def _codec_at(spec, place, name):
    key, what = (place[:-3], "len_enc") if place.endswith("len") else (place, "data_enc")
    spec[key] = dict(spec[key], **{what: name})


def codec_faults(run, cases):
    """Every way a codec can fail, in every place a codec is used."""
    def fn(ch):
        e = ch.choose(2)
        spec, doc = _rich_spec(e)
        place = ch.pick(PLACES)
        name = ch.pick(WEIRD)
        _FAULT[0] = None
        if name == "mcfault":
            _FAULT[0] = ch.pick([None] + EXCS + cases)
        raw = ref.encode(doc, spec)[0]
        _codec_at(spec, place, name)
        try:
            return run(ch, spec, doc, raw)
        finally:
            _FAULT[0] = None
    return fn


def r_degenerate(ch, thorough=False):
    """Specifications that define only some fields; every announced field may be the missing one."""
    spec, doc = _rich_spec(ch.choose(2))
    doc.update({"2": "1", "66": "2"})
    spec["130"] = F("ascii", "ascii", 1, 3)
    doc["130"] = "ab"
    raw = ref.encode(doc, spec)[0]
    for k in ("2", "66", "130", "1"):
        if ch.flag():
            del spec[k]
    n = ch.choose(len(raw) + 1)
    return spec, raw[:n] if ch.flag() else raw[n:]


def r_shipped(ch, thorough=False):
    """The shipped specifications fed with short garbage and every bitmap bit."""
    spec = (A.default, A.default_ascii)[ch.choose(2)]
    head = b"\x02\x00" if spec is A.default else b"0200"
    asc = spec is A.default_ascii
    kind = ch.choose(3)
    if kind == 0:
        n = ch.upto(3)
        return spec, head[:ch.choose(len(head) + 1)] + bytes([ch.pick(S.ALPHA) for _ in range(n)])

    def bm(v):
        return ("%016X" % v).encode() if asc else v.to_bytes(8, "big")
    if kind == 1:
        lvl = ch.choose(3)
        raw = head
        for i in range(lvl):
            raw += bm(1 << 63)
        raw += bm(1 << ch.choose(64))
    else:
        raw = head + bm(1 << 63) + bm((1 << 63) | (1 << ch.choose(63))) + bm(1 << ch.choose(64))
    return spec, raw + ch.pick([b"", b"0", b"00", b"000", b"0000", b"\x00\x00\x00", b"99", b"9999999999", b"\xff" * 12, b"012345678901234567890"])


S.r_degenerate = r_degenerate
S.r_shipped = r_shipped
BOUNDS["r_degenerate"] = "all subsets of four defined fields (including the secondary bitmap) x every prefix and suffix of a message that announces all of them"
BOUNDS["r_shipped"] = "both shipped specifications x short garbage, every single bit of every bitmap (129-192 undefined) x 10 bodies"
BOUNDS["faults"] = "18 codec names, 1 custom codec x 14 exception types and non-string results, in 8 places"


def c03(tier):
    j = J.dec_total
    hs = [H(s, j, tier) for s in ("r_tail", "r_mutate", "r_bitmap", "r_bitmaptext", "r_bitmapcodec", "r_prefix", "r_value", "r_nibbles", "r_degenerate", "r_shipped", "r_number", "r_wide", "r_codecs")]

    def run(ch, spec, doc, raw):
        n = ch.pick((len(raw), len(raw) - 1, len(raw) // 2))
        return j(spec, raw[:n])
    hs.append(Harness("codec_faults/dec_total", codec_faults(run, ["", "0", "0200", "ZZ", 5, None and 0]), BOUNDS["faults"]))
    return hs, {"assumptions": ASSUME_WF}


def c04(tier):
    hs = [H("d_seq", J.enc_account, tier), H("d_field", J.enc_account, tier, places=None if tier == "thorough" else S.PLACES_Q[:6]),
          H("d_bitmap", lambda s, d: J.enc_account(s, d, cuts=len(d) < (40 if tier != "thorough" else 100)), tier, name="d_bitmap/enc_account", envs=(0, 1, 2) if tier == "thorough" else (0, 1), small=tier != "thorough"),
          H("d_length", lambda s, d: J.enc_account(s, d, cuts=len(d["2"]) < 300), tier, name="d_length/enc_account")]
    hs += [H("r_mutate", J.dec_account, tier), H("r_bitmap", lambda s, r: J.dec_account(s, r, cuts=len(r) < 120), tier, name="r_bitmap/dec_account"), H("r_tail", J.dec_account, tier),
           H("r_prefix", lambda s, r: J.dec_account(s, r, cuts=len(r) < 120), tier, name="r_prefix/dec_account"), H("r_nibbles", J.dec_account, tier), H("r_bitmaptext", J.dec_account, tier), H("r_bitmapcodec", J.dec_account, tier), H("r_number", J.dec_account, tier, light=True),
           H("r_wide", lambda s, r: J.dec_account(s, r, cuts=len(r) < 60), tier, name="r_wide/dec_account"), H("d_same", lambda s, d: J.enc_account(s, d, cuts=False), tier, name="d_same/enc_account"), H("r_offset", lambda s, r: J.dec_account(s, r, cuts=False), tier, name="r_offset/dec_account")]
    return hs, {"assumptions": ASSUME_WF}


def c05(tier):
    j = J.dec_vs_ref
    hs = [H("r_prefix", j, tier), H("r_tail", j, tier), H("r_mutate", j, tier, kinds=("trunc", "ext", "sub", "del", "ins")), H("r_nibbles", j, tier), H("r_number", j, tier), H("r_wide", j, tier), H("r_offset", j, tier), H("r_codecs", j, tier)]

    def lens(ch, thorough=False):
        # long data: real bytes behind every interesting length
        spec, doc = S.d_length(ch, thorough)
        fs = spec["2"]
        try:
            raw = ref.encode(doc, dict(spec, **{"2": dict(fs, max_len=10 ** 9) if fs["len_type"] else dict(fs, max_len=_units(doc["2"], fs))}))[0]
        except ref.Bad:
            raise Skip() from None
        cut = ch.choose(3)
        return spec, raw[:-1] if cut == 1 else raw + b"0" if cut == 2 else raw
    S.r_length = lens
    BOUNDS["r_length"] = "the lengths of d_length as encoded messages, exact / one byte short / one byte long"
    hs.append(H("r_length", j, tier))
    return hs, {"assumptions": ASSUME_WF}


def _units(v, fs):
    if fs["data_enc"] == "b":
        return len(v) if fs.get("len_count") == "nibbles" else len(v) // 2
    n = len(v.encode(fs["data_enc"]))
    return n * 2 if fs.get("len_count") == "nibbles" else n


def c06(tier):
    def j(spec, doc):
        J.note("encode", spec, dict(doc))
        return J.enc_vs_ref(spec, doc)
    j.__name__ = "enc_vs_ref"
    hs = [H("d_field", j, tier), H("d_length", j, tier), H("d_seq", j, tier), H("d_text", j, tier, codecs=["utf-8", "utf-16-le", "shift_jis", "ascii", "utf-16"]), H("d_number", j, tier), H("d_badnumber", j, tier), H("d_wide", j, tier), H("d_same", j, tier), H("d_codecs", j, tier)]
    return hs, {"assumptions": ASSUME_WF}


JUNK = [{}, {"p": "FFFFFFFFFFFFFFFF"}, {"1": "FFFFFFFFFFFFFFFF"}, {"65": "x"}, {"p": "", "1": "", "65": ""}, {"1": "0" * 32, "65": "8000000000000000"},
        {"p": 5, "1": None}, {"bm": "x", "": "y", "tt": "z"}]


def c07(tier):
    def junk(ch, spec, doc):
        if tier == "thorough" and len(doc) < 12:
            j = ch.pick(JUNK)
        else:
            j = JUNK[(len(doc) + sum(int(k) for k in doc if k.isdigit())) % len(JUNK)]
        d = dict(j) if len(doc) % 2 else {}
        d.update(doc)
        d.update(j)
        return spec, d

    def enc_dec(spec, doc):
        out = J.enc_vs_ref(spec, doc)
        return out
    hs = [H("d_bitmapsettings", J.enc_vs_ref, tier), H("d_bitmap", J.enc_vs_ref, tier, post=junk, envs=(0, 1, 2, 3, 4)), H("d_seq", J.enc_vs_ref, tier, post=junk)]

    def few(ch):
        """Every bitmap encoding x sets spanning the three bitmaps x junk; codecs that cannot spell a bitmap."""
        pe, se = ch.pick(ENC7), ch.pick(ENC7)
        spec, doc = S.env(0)
        spec["p"], spec["1"] = F(pe, ml=ch.pick((8, 16, 0, 99))), F(se, ml=16)
        for f in S.BND[:10]:
            spec[str(f)] = F("ascii", ml=2)
        m = ch.choose(1 << 6)
        for i in range(6):
            if m >> i & 1:
                doc[str(S.BND[i])] = S.fval(S.BND[i])
        d = dict(ch.pick(JUNK))
        d.update(doc)
        return J.enc_vs_ref(spec, d)
    ENC7 = ["b", "ascii", "cp500", "latin-1", "utf-8", "cp037", "utf-16-le", "utf-16", "utf-32", "nonsense-codec"]
    hs.append(Harness("bitmap_encodings/enc_vs_ref", few, "10x10 primary/secondary bitmap encodings x 4 declared lengths x all subsets of {2,64,66,128,129,192} x 8 junk bitmap entries"))
    return hs, {"assumptions": ASSUME_WF}


def c08(tier):
    j = J.dec_vs_ref
    hs = [H("r_bitmapsettings", j, tier), H("r_bitmap", j, tier, envs=(0, 1, 2, 3, 4) if tier == "thorough" else (0, 1, 2)), H("r_bitmaptext", j, tier), H("r_bitmapcodec", j, tier), H("r_mutate", j, tier, kinds=("trunc", "sub", "swap"))]

    def dec_of(ch, thorough=False):
        spec, doc = S.d_bitmap(ch, thorough, (0, 1, 2, 3, 4))
        return spec, ref.encode(doc, spec)[0]
    S.r_fieldset = dec_of
    BOUNDS["r_fieldset"] = "messages with every field set of d_bitmap x 5 bitmap encodings"
    hs.append(H("r_fieldset", j, tier))

    def undefined(ch):
        # the specification lacks some of the announced fields, or has a field "65"/"1" lookalike
        e = ch.choose(3)
        spec = dict(S.BSPEC[e])
        spec["65"] = F("ascii", ml=2)
        doc = dict(S.ENVS[e][1])
        m = ch.choose(1 << 8)
        for i in range(8):
            if m >> i & 1:
                doc[str(S.BND[i])] = S.fval(S.BND[i])
        raw = ref.encode(doc, spec)[0]
        return J.dec_vs_ref(spec, raw)
    hs.append(Harness("field65_defined/dec_vs_ref", undefined, "specification defines 65 as an ordinary field x all subsets of 8 boundary fields x 3 envelopes"))
    return hs, {"assumptions": ASSUME_WF}


def c09(tier):
    th = tier == "thorough"
    hs = [H("r_nibbles", J.dec_vs_ref, tier), H("r_nibbles", J.dec_roundtrip, tier)]
    hs += [H("d_number", J.enc_vs_ref, tier, post=_only_nibbles), H("r_number", J.dec_vs_ref, tier, post=_only_nibbles)]

    def nib(ch, thorough=False):
        """Every pad digit of either case on either side x every short digit string, as header or field."""
        pads = [{}, {"left_pad": ""}, {"right_pad": ""}] + [{s: c} for s in ("left_pad", "right_pad") for c in "0123456789ABCDEFabcdef"] + [
            {"left_pad": a, "right_pad": b} for a in "01Ff" for b in "02Fe"] + [{"left_pad": "", "right_pad": "F"}, {"left_pad": "A", "right_pad": ""}]
        p = ch.pick(pads)
        le, lt = ch.pick([("b", 0), ("b", 1), ("bcd", 1), ("ascii", 2)])
        n = ch.upto(4 if th else 3)
        v = "".join([ch.pick("0123456789ABCDEFabcdef" if n <= (2 if th else 1) else "019AFaf") for _ in range(n)])
        more = ch.pick(("", "12", "0011223344556677889900"))
        v += more
        ml = ch.pick((len(v), len(v) + 1, len(v) - 1))
        if ml < 0 or (lt and ml > len(v)):
            raise Skip()
        key, e = ch.pick((("2", 1), ("h", 0), ("129", 2)) if th else (("2", 1), ("h", 0)))
        if key == "h" and ml <= 0:
            raise Skip()
        spec, doc = S.place(key, F("b", le, lt, ml, len_count="nibbles", **p), e)
        doc[key] = v
        return spec, doc
    S.d_nibbles = nib
    BOUNDS["d_nibbles"] = "63 pad settings (every hex digit of either case, both sides, both at once, empty) x fixed/variable x every digit string to length 1 (thorough 2), boundary digits to 3 (thorough 4) and longer ones x maximum at/around the length x header and field"
    hs += [H("d_nibbles", J.enc_vs_ref, tier), H("d_nibbles", J.enc_roundtrip, tier)]
    hs += [H("d_field", J.enc_vs_ref, tier, data=NIB), H("d_field", J.enc_roundtrip, tier, data=NIB), H("r_tail", J.dec_vs_ref, tier, data=NIB)]

    def nlen(ch, thorough=False):
        return S.d_length(ch, thorough)
    hs.append(H("d_length", J.enc_roundtrip, tier, post=lambda ch, s, d: (s, d) if s["2"].get("len_count") == "nibbles" else _skip()))
    return hs, {"assumptions": ASSUME_WF + ["pads are single hex digits, as documented"]}


def _only_nibbles(ch, spec, x):
    if any(v.get("len_count") == "nibbles" for v in spec.values()):
        return spec, x
    raise Skip()


def _skip():
    raise Skip()


# ---- C10

class Odd:
    def __repr__(self):
        return "<odd>"


class LikeText:
    """Not a string, but has the methods of one."""

    def __init__(self, result):
        self.result = result

    def encode(self, *a):
        return self.result

    def __len__(self):
        return 2

    def isnumeric(self):
        return self.result


class NoRepr:
    def __repr__(self):
        raise RuntimeError("no repr")


def _odd_values():
    import email.header
    return [J.SubStr("12"), J.SubStr("0A"), email.header.Header("12"), LikeText("12"), LikeText(None), LikeText(2), LikeText(["1"]), NoRepr(), None, 5, -1, 1.5, True, b"12", b"1", bytearray(b"12"), ["1", "2"], ("12",), {"len": b"", "data": b"12"}, Odd(), [], {}, b"", memoryview(b"12"), range(2), object]


def _odd_keys():
    import collections
    return [J.SubStr("2"), J.SubStr("x"), J.SubStr("193"), "1" * 4300, "1" * 4301, "9" * 20000, "0" * 5000, 10 ** 5000, collections.UserString("2"), collections.UserString("x"), LikeText(True), LikeText("x"), NoRepr(), "0", "00", "193", "1000", "-1", "+2", " 2", "2 ", "2.0", "02", "002", "01", "065", "²", "٣", "½", "一", "Ⅷ", "٢", "1²", "3٣", "", "x", "h2", "tp", "65", "1", "p",
            2, 0, None, True, 1.0, b"2", ("2",), frozenset(), "\ud800", "1_0", "0x2", "2\n", "99999999999999999999"]


def d_odd(ch, thorough=False):
    """Dictionaries with odd keys and odd values in every role."""
    e = ch.choose(3)
    spec, doc = S.env(e)
    spec["2"] = F("ascii", "ascii", 2, 9)
    spec["3"] = F("b", "b", 1, 4)
    spec["4"] = F("b", "b", 1, 4, len_count="nibbles", left_pad="0")
    spec["66"] = F("utf-8", ml=2)
    spec["130"] = F("b", ml=1, len_count="nibbles", right_pad="F")
    for k, v in (("2", "12"), ("3", "0A"), ("4", "123"), ("66", "zz"), ("130", "7")):
        if ch.flag():
            doc[k] = v
    kind = ch.choose(5)
    if kind == 0:
        doc[ch.pick(_odd_keys())] = ch.pick(("12", None, 5))
    elif kind == 1:
        k1 = ch.pick(_odd_keys())
        k2 = ch.pick(_odd_keys())
        doc[k1] = "12"
        doc[k2] = "34"
    elif kind == 2:
        doc[ch.pick(("h", "t", "p", "1", "65", "2", "3", "4", "66", "130"))] = ch.pick(_odd_values())
    elif kind == 3:
        for k in ("h", "t"):
            if ch.flag():
                doc.pop(k, None)
        for k in ("1", "2", "66"):
            if ch.flag():
                spec.pop(k, None)
    else:
        k = ch.pick(("2", "3", "4", "66", "130", "t", "h"))
        doc[k] = ch.pick(("", "1", "é", "\ud800", "0G", "G", "12345678901234567890", "zz", " 1", "1 ", "0x", "+1", "1_", "١٢", "\x00", "ＡＢ", "12\n"))
    return spec, doc


def _all_str(doc):
    return all(isinstance(v, str) for k, v in doc.items() if k not in ("p", "1", "65"))


def enc_odd(spec, doc):
    J.note("encode", spec, dict(doc))
    sent = {k: v for k, v in doc.items() if k not in ("p", "1", "65")}
    strings = all(isinstance(v, str) for v in sent.values())
    bytesy = any(isinstance(v, (bytes, bytearray, memoryview)) for v in sent.values())
    want = J.ref_encode(dict(doc), spec)[0]
    out = J.enc_total(spec, doc)
    if strings or (not bytesy and isinstance(want, ref.Bad)):
        if (out == "encoded") != (not isinstance(want, ref.Bad)):
            raise Violation("encode: %s, the documentation says: %s" % (out, want if not isinstance(want, ref.Bad) else "reject (%s, field %s)" % (want.msg, want.field)))
    return out


def c10(tier):
    S.d_odd = d_odd
    BOUNDS["d_odd"] = "32 subsets of 5 field kinds x 3 envelopes x {53 odd keys, pairs of odd keys, 26 odd values in 10 roles, missing header/type/specification entries, 17 bad strings in 7 roles}"
    hs = [H("d_odd", enc_odd, tier), H("d_field", J.enc_accept, tier), H("d_hex", J.enc_accept, tier), H("d_text", J.enc_accept, tier), H("d_codepoint", J.enc_accept, tier),
          H("d_bitmap", J.enc_accept, tier, envs=(0, 1)), H("d_seq", J.enc_accept, tier), H("d_length", J.enc_accept, tier), H("d_number", J.enc_accept, tier), H("d_badnumber", J.enc_accept, tier), H("d_wide", J.enc_accept, tier), H("d_codecs", J.enc_accept, tier)]

    def run(ch, spec, doc, raw):
        return J.enc_total(spec, doc)
    hs.append(Harness("codec_faults/enc_total", codec_faults(run, [b"", b"0", b"0200", b"0" * 16, "str", 5]), BOUNDS["faults"]))
    return hs, {"assumptions": ASSUME_WF + ["hex digits given as bytes for a binary field are outside the property (tolerated by the code)"]}


# ---- C14

def c14(tier):
    deep = lambda j: (lambda s, x: j(s, x, True))  # noqa: E731
    hs = [H("r_mutate", J.dec_diag, tier), H("r_prefix", J.dec_diag, tier), H("r_bitmaptext", J.dec_diag, tier), H("r_bitmapcodec", J.dec_diag, tier), H("r_bitmap", J.dec_diag, tier, envs=(0, 2)),
          H("r_nibbles", J.dec_diag, tier), H("r_tail", J.dec_diag, tier, lens=S.LENS_S if tier == "thorough" else S.LENS_S[::2]), H("r_degenerate", J.dec_diag, tier), H("r_shipped", J.dec_diag, tier),
          H("d_field", J.enc_diag, tier), H("d_hex", J.enc_diag, tier), H("d_text", J.enc_diag, tier), H("d_length", J.enc_diag, tier), H("d_badnumber", J.enc_diag, tier), H("r_number", J.dec_diag, tier), H("d_wide", J.enc_diag, tier), H("r_wide", J.dec_diag, tier), H("r_offset", J.dec_diag, tier), H("d_codecs", J.enc_diag, tier), H("r_codecs", J.dec_diag, tier)]
    hs += [H("r_degenerate", deep(J.dec_diag), tier, name="r_degenerate/pickle"), H("r_mutate", deep(J.dec_diag), "quick", name="r_mutate/pickle", kinds=("trunc", "ext"))]

    def d_fail(ch, thorough=False):
        """Several fields of which one (or the header, type or bitmap) cannot be encoded."""
        e = ch.choose(len(S.ENVS))
        spec, doc = S.env(e)
        keys = ch.pick(S.SEQKEYS)
        for j, k in enumerate(keys):
            fs, vals = S.SEQ[(j * 2 + e) % len(S.SEQ)]
            spec[k], doc[k] = fs, vals[-1]
        what = ch.choose(6)
        if what == 0:
            k = ch.pick(keys)
            fs, vals = ch.pick(S.SEQ)
            spec[k] = fs
            doc[k] = ch.pick(("", "A", "AB", "ABC", "GG", "é", "€€€", "0", "\ud800", "x" * 40, "0" * 41, "12345678901234567890"))
        elif what == 1:
            del spec[ch.pick(keys + ("1",))]
        elif what == 2:
            doc.pop(ch.pick(("h", "t")), None)
        elif what == 3:
            doc["t"] = ch.pick(("", "0", "02", "020", "02000", "020000", "zzzz", "éééé", "\ud800200", "0 00"))
        elif what == 4:
            k = ch.pick(("0", "193", "200", "03", "²", "٣", "01"))
            doc[k] = "1"
            if ch.flag():
                doc["1" + "0" * 5] = "1"
        else:
            k = ch.pick(("t", "p", "1") + keys)
            spec[k] = dict(spec[k], data_enc=ch.pick(("nonsense-codec", "utf-16", "undefined", "ascii", "b")))
        return spec, doc
    S.d_fail = d_fail
    BOUNDS["d_fail"] = "3 fields in 8 placements x 6 envelopes x one defect: bad value (12 values x 9 kinds), missing specification, missing or bad header/type, bad keys, bad codecs"
    hs += [H("d_fail", J.enc_diag, tier), H("d_fail", deep(J.enc_diag), tier, name="d_fail/pickle")]
    return hs, {"assumptions": ASSUME_WF}


# ---- C15

def c15(tier):
    th = tier == "thorough"

    def d_head(ch, thorough=False):
        """Header and type configurations x header and type values (present, absent, wrong)."""
        te = ch.pick(("b", "ascii", "cp500", "latin-1", "utf-8", "utf-16-le"))
        tx = ch.pick(({}, {"len_type": 2}, {"max_len": 0}, {"max_len": 99, "len_type": 1}, {"len_count": "nibbles"}, {"len_count": "nibbles", "left_pad": "0", "max_len": 3}))
        tf = dict(F(te, "b", 0, 4), **tx)
        hf = ch.pick((F(ml=0), F(ml=-1), F("b", "b", 1, 0), F("ascii", "ascii", 2, 0, len_count="nibbles"), F("ascii", ml=3), F("b", "b", 1, 4), F("cp500", "bcd", 1, 5),
                      F("b", "ascii", 2, 5, len_count="nibbles", left_pad="0"), F("b", ml=1, len_count="nibbles", right_pad="F"), F("latin-1", "b", 2, 300)))
        spec, doc = S.env(0)
        spec["h"], spec["t"] = hf, tf
        spec["2"] = F("ascii", ml=1)
        if ch.flag():
            doc["2"] = "x"
        doc.pop("t")
        hv = ch.pick((None, "", "A", "ABC", "0102", "12345", "AG", "é", "ABCDEF"))
        if hv is not None:
            doc["h"] = hv
        kind = ch.choose(3)
        if kind == 1:
            tv = ch.pick(HT)
            doc["t"] = tv
        elif kind == 2:
            n = ch.upto(4, 1)
            doc["t"] = "".join([ch.pick("09Af é" if th else "0Af ") for _ in range(n)])
        return spec, doc
    HT = ["", "0", "02", "020", "0200", "02000", "020000", "02000000", "abcd", "FFFF", "zzzz", "éé", "éééé", "€0", "    ", "\x00\x00\x00\x00", "\ud800\ud800\ud800\ud800", "０２００"]
    S.d_head = d_head
    BOUNDS["d_head"] = "6 type encodings x 6 other type settings x 10 header settings x 9 header values x all type strings to length 4 over a small alphabet plus 18 others, with and without a field"

    def r_head(ch, thorough=False):
        te = ch.pick(("b", "ascii", "cp500", "utf-8", "utf-16-le"))
        tx = ch.pick(({}, {"len_type": 2}, {"max_len": 0}, {"max_len": 99}, {"len_count": "nibbles", "max_len": 3, "right_pad": "0"}))
        hf = ch.pick((F(ml=0), F(ml=-5), F("b", "b", 1, 0), F("ascii", ml=2), F("b", "b", 1, 2), F("cp500", "bcd", 1, 3), F("b", "b", 1, 3, len_count="nibbles", left_pad="0"), F("ascii", "ascii", 2, 12)))
        spec, doc = S.env(0)
        spec["h"], spec["t"] = hf, dict(F(te, "ascii", 0, 4), **tx)
        n = ch.upto(4)
        head = bytes([ch.pick(S.ALPHA if n < 3 or th else S.ALPHA_S) for _ in range(n)]) if n < 4 else bytes([ch.pick(S.ALPHA_S[:5] if th else S.ALPHA_S[::3]) for _ in range(n)])
        body = ch.pick((b"\x02\x00", b"0200", b"\xf0\xf2\xf0\xf0", b"2\x00", b"\xff\xfe\xff\xfe", b"Abcd"))
        rest = ch.pick((b"0" * 16, b"0" * 15, b"", b"0" * 18))
        return spec, head + body + rest
    S.r_head = r_head
    BOUNDS["r_head"] = "5 type encodings x 5 other type settings x 8 header settings x all header bytes to length 2 over 13 values (3 over 7, thorough 13; 4 over 5) x 6 type values x 4 remainders"

    def r_type(ch, thorough=False):
        te = ch.pick(("b", "ascii", "cp500", "utf-8", "utf-16-le"))
        spec, doc = S.env(0)
        spec["t"] = F(te, ml=4)
        w = 2 if te == "b" else 4
        n = ch.upto(w)
        pos = ch.choose(max(n, 1))
        b = bytearray(b"\x30\x32\x31\x30"[:n])
        if n:
            b[pos] = ch.choose(256)
        if n < w:
            return spec, bytes(b)
        return spec, bytes(b) + b"0" * 16
    S.r_type = r_type
    BOUNDS["r_type"] = "every byte value in every type position x 5 encodings, every truncation"
    hs = [H("d_type", J.enc_vs_ref, tier), H("r_type10", J.dec_vs_ref, tier), H("d_typesettings", J.enc_vs_ref, tier), H("r_typesettings", J.dec_vs_ref, tier), H("d_head", J.enc_vs_ref, tier), H("r_head", J.dec_vs_ref, tier), H("r_type", J.dec_vs_ref, tier),
          H("d_field", J.enc_vs_ref, tier, places=[(e, "h") for e in (0, 1)] if not th else [(e, "h") for e in range(len(S.ENVS))]),
          H("d_field", J.enc_roundtrip, tier, places=[(e, "h") for e in (0, 1)] if not th else [(e, "h") for e in range(len(S.ENVS))])]
    return hs, {"assumptions": ASSUME_WF}


# ---- C19

def c19(tier):
    th = tier == "thorough"
    hs = [H("d_text", J.enc_vs_ref, tier, codecs=S.CODECS1 + S.CODECSM[:10]), H("d_hex", J.enc_vs_ref, tier), H("d_codepoint", J.enc_vs_ref, tier), H("r_value", J.dec_vs_ref, tier)]

    def r_hexall(ch, thorough=False):
        """Every pair of data bytes in a binary field; bytes and every position of longer data."""
        n = ch.upto(3, 1)
        if n <= 2 and (n == 1 or th):
            data = bytes([ch.choose(256) for _ in range(n)])
        else:
            pos = ch.choose(n)
            b = bytearray([ch.pick((0x12, 0xFF))] * n)
            b[pos] = ch.choose(256)
            data = bytes(b)
        lt = ch.choose(2)
        nib = ch.flag()
        spec, doc = S.place("2", F("b", "b", lt, n * (2 if nib else 1), **({"len_count": "nibbles"} if nib else {})), 1)
        return spec, S.envelope_raw(spec, doc, "2") + (bytes([n * (2 if nib else 1)]) if lt else b"") + data
    S.r_hexall = r_hexall
    BOUNDS["r_hexall"] = "every byte value in every position of 1-3 byte binary data (thorough: all pairs) x fixed/variable x bytes/nibbles"

    def d_space(ch, thorough=False):
        """White space, case, zero padding, quotes, control and Unicode lookalikes at both ends: nothing is trimmed or folded."""
        parts = ["", " ", "  ", "0", "00", "a", "A", "\t", "\n", "\r\n", "\x00", "'", '"', "\\", "é", "e\u0301", "ß", "İ", "\ufb01", "\ufeff", "\u200b", "\u2028", "1", "-1", "%s", "{}", "\x1c", "\xa0", "\x85"]
        de = ch.pick(("ascii", "latin-1", "cp500", "utf-8", "utf-16-le", "cp1252"))
        v = ch.pick(parts) + ch.pick(("", "x", " ")) + ch.pick(parts)
        lt = ch.choose(2)
        try:
            n = len(v.encode(de))
        except Exception:
            n = len(v)
        key, e = ch.pick((("2", 0), ("66", 1), ("h", 0)))
        if key == "h" and n == 0:
            raise Skip()
        spec, doc = S.place(key, F(de, "ascii", 2 if lt else 0, n), e)
        doc[key] = v
        return spec, doc
    S.d_space = d_space
    BOUNDS["d_space"] = "29x3x29 combinations of leading/trailing white space, zeros, case, control characters and Unicode lookalikes x 6 codecs x fixed/variable x header/field"

    def d_longtext(ch, thorough=False):
        """The same at both ends, and inside, of values around every size an implementation might treat apart."""
        parts = ["", " ", "0", "\t", "\n", "\x00", "a", "é"]
        de = ch.pick(("ascii", "latin-1", "cp500", "utf-8", "utf-16-le"))
        n = ch.pick((15, 16, 19, 20, 31, 32, 63, 64, 65, 98, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 998, 999) + ((1000, 1023, 1024, 1025, 4095, 4096, 4097, 9998, 9999) if th else ()))
        a, b = ch.pick(parts), ch.pick(parts)
        mid = ch.pick(("x", "Xy", "a b", " "))
        v = a + (mid * n)[: max(n - len(a) - len(b), 0)] + b
        lt = ch.pick((0, 4) if n > 999 else (0, 3, 4))
        try:
            k = len(v.encode(de))
        except Exception:
            k = len(v)
        if lt and k >= 10 ** lt:
            lt = 4
        key, e = ch.pick((("2", 0), ("66", 1)))
        spec, doc = S.place(key, F(de, "ascii" if lt != 4 or n % 2 else "b", lt, k), e)
        doc[key] = v
        return spec, doc
    S.d_longtext = d_longtext
    BOUNDS["d_longtext"] = "26 (thorough 35) lengths 15-999 (9999) around powers of two and decimal widths x 8 first x 8 last characters x 4 fillers x 5 codecs x fixed / 3- / 4-byte prefix x 2 places"

    def r_longdata(ch, thorough=False):
        """Binary data of those lengths: a marked byte anywhere near either end or in the middle."""
        n = ch.pick((15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1024))
        fill = ch.pick((0, 0x20, 0xAB, 0xFF))
        pos = ch.pick((0, 1, n // 2, n - 2, n - 1))
        b = bytearray([fill]) * n
        b[pos] = ch.pick((0, 1, 0x0F, 0xF0, 0x20, 0x40, 0xFF))
        lt = ch.pick((0, 2, 3))
        nib = ch.flag()
        k = n * (2 if nib else 1)
        odd = nib and ch.flag()
        if odd:
            k -= 1
            b[0] &= 0x0F
        le = ch.pick(("b", "bcd", "ascii"))
        if lt and (le == "bcd" and k >= 10 ** (2 * lt) or le == "ascii" and k >= 10 ** lt):
            raise Skip()
        spec, doc = S.place("2", F("b", le, lt, k, **({"len_count": "nibbles", "left_pad": "0"} if nib else {})), 1)
        pre = b"" if not lt else k.to_bytes(lt, "big") if le == "b" else bytes.fromhex(("%%0%dd" % (2 * lt)) % k) if le == "bcd" else (("%%0%dd" % lt) % k).encode()
        return spec, S.envelope_raw(spec, doc, "2") + pre + bytes(b)
    S.r_longdata = r_longdata
    BOUNDS["r_longdata"] = "22 lengths 15-1024 x 4 fillers x a marked byte in 5 places x 7 values x 3 length encodings x bytes / even / odd nibbles"
    hs += [H(sp, J.enc_vs_ref, tier) for sp in ("d_pairs", "d_combining", "d_escapes", "d_number", "d_same", "d_codecs")] + [H(x, J.dec_vs_ref, tier) for x in ("r_number", "r_codecs")]
    hs += [H("d_longtext", J.enc_vs_ref, tier), H("d_longtext", J.enc_roundtrip, tier), H("r_longdata", J.dec_vs_ref, tier), H("r_longdata", J.dec_roundtrip, tier)]
    hs += [H("r_hexall", J.dec_vs_ref, tier), H("d_space", J.enc_vs_ref, tier), H("d_space", J.enc_roundtrip, tier)]
    return hs, {"assumptions": ASSUME_WF + ["Python's codecs define what the bytes of a text are"]}


# ---- C20

def c20(tier):
    th = tier == "thorough"
    hs = [H("r_mutate", J.dec_plain, tier if th else "quick", kinds=("trunc", "ext", "sub") if not th else ("trunc", "ext", "sub", "del", "ins")),
          H("r_nibbles", J.dec_plain, "quick"), H("r_bitmaptext", J.dec_plain, "quick"), H("r_bitmapcodec", J.dec_plain, "quick"), H("r_tail", J.dec_plain, "quick", lens=S.LENS_S[1:7:2] + S.LENS_S[:1], deep=False),
          H("d_seq", J.enc_plain, tier), H("d_field", J.enc_plain, "quick", places=S.PLACES_Q[:3] if not th else S.PLACES_T)]

    def types_(ch):
        """Every wrong argument type."""
        spec, doc, raw = ch.pick(S.bases()[:6])
        import array
        import collections
        import types
        bads = ["0200", None, 5, list(raw), tuple(raw), memoryview(raw), iter(raw), array.array("B", raw), {"s": raw}, object(), raw.decode("latin-1"), ["0200"], 1.5, True, range(3), set()]
        if ch.flag():
            x = ch.pick(bads)
            J.note("decode", spec, repr(x))
            try:
                r = A.decode(x, spec)
            except TypeError:
                return "decode TypeError"
            raise Violation("decode accepted %s: %r" % (type(x).__name__, r))
        bads = [None, [], list(doc.items()), tuple(doc), "t", 5, raw, types.MappingProxyType(doc), collections.UserDict(doc), collections.ChainMap(doc), iter(doc), object(), frozenset(doc), dict, doc.items(), True]
        x = ch.pick(bads)
        J.note("encode", spec, repr(x))
        try:
            r = A.encode(x, spec)
        except TypeError:
            return "encode TypeError"
        raise Violation("encode accepted %s: %r" % (type(x).__name__, r))
    hs.append(Harness("argument_types", types_, "6 messages x 16 wrong input types for decode and 16 for encode"))

    def shipped(ch):
        """Shipped specifications through JSON, every field alone."""
        import json
        spec = (A.default, A.default_ascii)[ch.choose(2)]
        f = str(ch.upto(128, 2))
        if f == "65":
            raise Skip()
        fs = spec[f]
        unit = 2 if fs["data_enc"] == "b" else 1
        n = fs["max_len"] if fs["len_type"] == 0 else ch.pick((0, 1, min(fs["max_len"], 99)))
        doc = {"t": "0200", f: ("1234567890" * 200)[:n * unit]}
        raw, enc, _ = ref.encode(doc, spec)
        s2 = json.loads(json.dumps(spec))
        if s2 != spec:
            raise Violation("shipped specification does not survive JSON")
        J.enc_plain(spec, dict(doc))
        J.dec_plain(spec, raw)
        return J.dec_plain(s2, raw)
    hs.append(Harness("shipped_json", shipped, "both shipped specifications x every field alone x lengths {0,1,max}"))
    return hs, {"assumptions": ASSUME_WF}


PROPS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C14": c14, "C15": c15, "C19": c19, "C20": c20}
