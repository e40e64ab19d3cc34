"""Reference model of the documented ISO8583 codec and pretty printer.

Deliberately boring and written from the documentation: a message is the
sequence header, type, bitmaps, fields; each is parsed / formatted by one rule.
It shares no code with /repo.  Python's own text codecs are trusted.
"""

HEX = "0123456789abcdefABCDEF"


class Bad(Exception):
    """The operation is rejected."""

    def __init__(self, msg, field, pos=None, dec=None, enc=None):
        super().__init__(msg, field, pos)
        self.msg, self.field, self.pos, self.dec, self.enc = msg, field, pos, dec, enc


def _ishex(s):
    return all(c in HEX for c in s)


def hexbytes(s):
    return bytes(int(s[i : i + 2], 16) for i in range(0, len(s), 2))


def upper_hex(b):
    return "".join("%02X" % x for x in b)


def codec_exists(name):
    try:
        b"".decode(name)
        "".encode(name)
    except LookupError:
        return False
    except Exception:
        return True
    # b"".decode("nonsense") does not look the codec up in every Python version
    try:
        b"0".decode(name)
    except LookupError:
        return False
    except Exception:
        pass
    return True


def bitmap_hex(fields, offset):
    v = 0
    for f in fields:
        v |= 1 << (64 - (f - offset))
    return "%016X" % v


# ------------------------------------------------------------------ decode


def _text(raw, enc):
    """-> (text, None) or (None, reason)"""
    try:
        return raw.decode(enc), None
    except LookupError:
        return None, "unknown encoding specified"
    except Exception:
        return None, "invalid data"


def decode_field(s, i, key, fs):
    """-> (len_bytes, data_bytes, text, next_index); raises Bad."""
    lt = fs["len_type"]
    unit = fs.get("len_count", "bytes")
    nib = unit == "nibbles"
    prefix = bytes(s[i : i + lt])
    if len(prefix) < lt:
        raise Bad("Field length is %d bytes wide, expecting %d" % (len(prefix), lt), key, i)
    if lt == 0:
        n = fs["max_len"]
    else:
        le = fs["len_enc"]
        if le == "b":
            n = 0
            for b in prefix:
                n = n * 256 + b
        elif le == "bcd":
            n = 0
            for b in prefix:
                hi, lo = b >> 4, b & 15
                if hi > 9 or lo > 9:
                    raise Bad("Failed to decode field length, invalid BCD data", key, i)
                n = n * 100 + hi * 10 + lo
        else:
            txt, why = _text(prefix, le)
            if txt is None:
                raise Bad("Failed to decode field length, " + why, key, i)
            if not txt or any(c not in "0123456789" for c in txt):
                raise Bad("Failed to decode field length, non-numeric data", key, i)
            n = 0
            for c in txt:
                n = n * 10 + "0123456789".index(c)
        if n > fs["max_len"]:
            raise Bad("Field data is %d %s, larger than maximum %d" % (n, unit, fs["max_len"]), key, i)
    i += lt
    if n == 0:
        return prefix, b"", "", i
    nbytes = -(-n // 2) if nib else n
    data = bytes(s[i : i + nbytes])
    if len(data) < nbytes:
        raise Bad("Field data is %d %s, expecting %d" % (len(data) * (2 if nib else 1), unit, n), key, i)
    odd = nib and n % 2 == 1
    if fs["data_enc"] == "b":
        text = upper_hex(data)
        if odd:
            left = fs.get("left_pad", "")[:1].upper()
            right = fs.get("right_pad", "")[:1].upper()
            if left and text[0] == left:
                text = text[1:]
            elif right and text[-1] == right:
                text = text[:-1]
            else:
                raise Bad("Field data is %d nibbles, expecting %d" % (len(text), n), key, i)
    else:
        if odd:
            raise Bad("Field data is %d nibbles, expecting %d" % (nbytes * 2, n), key, i)
        text, why = _text(data, fs["data_enc"])
        if text is None:
            raise Bad("Failed to decode field, " + why, key, i)
    return prefix, data, text, i + nbytes


def decode(s, spec):
    """-> (dec, enc) ordered dicts in wire order; raises Bad with partial docs."""
    dec, enc = {}, {}
    try:
        return _decode(s, spec, dec, enc)
    except Bad as b:
        b.dec, b.enc = dec, enc
        raise


def _decode(s, spec, dec, enc):
    i = 0
    last = None

    def put(key, ln, data, text):
        dec[key] = text
        enc[key] = {"len": ln, "data": data}

    if spec["h"]["max_len"] > 0:
        ln, data, text, i = decode_field(s, i, "h", spec["h"])
        put("h", ln, data, text)

    w = 2 if spec["t"]["data_enc"] == "b" else 4
    data = bytes(s[i : i + w])
    if len(data) < w:
        raise Bad("Field data is %d bytes, expecting %d" % (len(data), w), "t", i)
    if w == 2:
        text = upper_hex(data)
    else:
        text, why = _text(data, spec["t"]["data_enc"])
        if text is None:
            raise Bad("Failed to decode field, " + why, "t", i)
    put("t", b"", data, text)
    i += w

    def bitmap(i, key, fs, got):
        w = 8 if fs["data_enc"] == "b" else 16
        data = bytes(s[i : i + w])
        if len(data) < w:
            raise Bad("Field data is %d bytes, expecting %d" % (got + len(data), got + w), key, i)
        if w == 8:
            text = upper_hex(data)
        else:
            text, why = _text(data, fs["data_enc"])
            if text is None:
                raise Bad("Failed to decode field, " + why, key, i)
            if len(text) != 16 or not _ishex(text):
                raise Bad("Failed to decode field, non-hex data", key, i)
        v = int(text, 16)
        return data, text, [f for f in range(1, 65) if v >> (64 - f) & 1], i + w

    data, text, bits, i = bitmap(i, "p", spec["p"], 0)
    put("p", b"", data, text)
    last = "p"
    fields = [f for f in bits if f != 1]
    if 1 in bits:
        last = "1"
        if "1" not in spec:
            raise Bad("Field is not defined in specification", "1", i)
        data, text, bits2, i = bitmap(i, "1", spec["1"], 0)
        if 1 in bits2:
            data3, text3, bits3, i = bitmap(i, "1", spec["1"], len(data))
            data, text = data + data3, text + text3
        else:
            bits3 = []
        put("1", b"", data, text)
        fields += [64 + f for f in bits2 if f != 1] + [128 + f for f in bits3]
    for f in fields:
        key = str(f)
        last = key
        if key not in spec:
            raise Bad("Field is not defined in specification", key, i)
        ln, data, text, i = decode_field(s, i, key, spec[key])
        put(key, ln, data, text)
    if i != len(s):
        raise Bad("Extra data after last field", last, i)
    return dec, enc


# ------------------------------------------------------------------ encode


def encode_data(value, key, fs, unit):
    """-> (bytes, length in unit); raises Bad."""
    nib = unit == "nibbles"
    if not isinstance(value, str):
        raise Bad("Failed to encode field, invalid data", key)
    if fs["data_enc"] == "b":
        full = value
        if nib and len(value) % 2 == 1:
            left = fs.get("left_pad", "")[:1]
            right = fs.get("right_pad", "")[:1]
            if left:
                full = left + value
            elif right:
                full = value + right
        if len(full) % 2 == 1:
            if nib:
                raise Bad("Failed to encode field, odd-length nibble data, specify pad", key)
            raise Bad("Failed to encode field, odd-length hex data", key)
        if not _ishex(full):
            raise Bad("Failed to encode field, non-hex data", key)
        data = hexbytes(full)
        return data, (len(value) if nib else len(data))
    try:
        data = value.encode(fs["data_enc"])
    except LookupError:
        raise Bad("Failed to encode field, unknown encoding specified", key) from None
    except Exception:
        raise Bad("Failed to encode field, invalid data", key) from None
    return data, len(data) * (2 if nib else 1)


_NOFIT = "Failed to encode field length, field length does not fit into configured field size"


def encode_field(value, key, fs):
    """-> (len_bytes, data_bytes); raises Bad."""
    unit = fs.get("len_count", "bytes")
    data, n = encode_data(value, key, fs, unit)
    lt = fs["len_type"]
    if lt == 0:
        if n != fs["max_len"]:
            raise Bad("Field data is %d %s, expecting %d" % (n, unit, fs["max_len"]), key)
        return b"", data
    if n > fs["max_len"]:
        raise Bad("Field data is %d %s, larger than maximum %d" % (n, unit, fs["max_len"]), key)
    le = fs["len_enc"]
    if le == "b":
        if n >= 256**lt:
            raise Bad(_NOFIT, key)
        return bytes((n // 256**k) % 256 for k in range(lt - 1, -1, -1)), data
    if le == "bcd":
        if n >= 100**lt:
            raise Bad(_NOFIT, key)
        return bytes(((d // 10) << 4) | d % 10 for d in ((n // 100**k) % 100 for k in range(lt - 1, -1, -1))), data
    digits = str(n)
    digits = "0" * (lt - len(digits)) + digits
    try:
        prefix = digits.encode(le)
    except LookupError:
        raise Bad("Failed to encode field length, unknown encoding specified", key) from None
    except Exception as e:
        raise Bad("Failed to encode field length, %s" % e, key) from None
    if len(prefix) > lt:
        raise Bad(_NOFIT, key)
    return prefix, data


def encode(doc, spec):
    """-> (raw, enc (wire order), dict contents after the call); raises Bad."""
    enc = {}
    try:
        return _encode(doc, spec, enc)
    except Bad as b:
        b.enc = enc
        raise


def bad_keys(doc):
    """Key problems of a dictionary: [] when all keys are usable."""
    out = []
    for k in doc:
        if k in ("1", "65"):
            continue
        if not isinstance(k, str):
            out.append(k)
        elif k.isnumeric():
            if not k.isascii() or (k[0] == "0" and k != "0") or len(k) > 3 or not 1 <= int(k) <= 192:
                out.append(k)
    return out


def _encode(doc, spec, enc):
    after = {k: v for k, v in doc.items() if k not in ("1", "65")}
    out = b""
    if spec["h"]["max_len"] > 0:
        if "h" not in doc:
            raise Bad("Field data is required according to specifications", "h")
        ln, data = encode_field(doc["h"], "h", spec["h"])
        enc["h"] = {"len": ln, "data": data}
        out += ln + data

    if "t" not in doc:
        raise Bad("Field data is required", "t")
    data, n = encode_data(doc["t"], "t", spec["t"], "bytes")
    w = 2 if spec["t"]["data_enc"] == "b" else 4
    if n != w:
        raise Bad("Field data is %d bytes, expecting %d" % (n, w), "t")
    enc["t"] = {"len": b"", "data": data}
    out += data

    odd = [k for k in after if not isinstance(k, str)]
    if odd:
        try:
            shown = " %r" % odd
        except Exception:
            shown = ""
        raise Bad("Dictionary contains invalid fields%s" % shown, "p")
    num = [k for k in after if k.isnumeric()]
    odd = [k for k in num if not k.isascii() or (k[0] == "0" and k != "0")]
    if odd:
        raise Bad("Dictionary contains invalid fields %r" % odd, "p")
    if any(len(k) > 4300 for k in num):
        raise Bad("Dictionary contains fields outside of 1-192 range", "p")
    fields = sorted(int(k) for k in num)
    odd = [f for f in fields if not 1 <= f <= 192]
    if odd:
        raise Bad("Dictionary contains fields outside of 1-192 range %r" % odd, "p")

    first = [f for f in fields if f <= 64]
    second = [f for f in fields if 65 <= f <= 128]
    third = [f for f in fields if f >= 129]
    if third:
        second = [65] + second
    if second:
        first = [1] + first

    def bitmap(text, key, fs):
        if fs["data_enc"] == "b":
            return hexbytes(text)
        try:
            data = text.encode(fs["data_enc"])
        except LookupError:
            raise Bad("Failed to encode field, unknown encoding specified", key) from None
        except Exception:
            raise Bad("Failed to encode field, invalid data", key) from None
        if len(data) != 16:
            raise Bad("Field data is %d bytes, expecting 16" % len(data), key)
        return data

    text = bitmap_hex(first, 0)
    data = bitmap(text, "p", spec["p"])
    enc["p"] = {"len": b"", "data": data}
    after["p"] = text
    out += data
    if second:
        if "1" not in spec:
            raise Bad("Field is not defined in specification", "1")
        text = bitmap_hex(second, 64)
        data = bitmap(text, "1", spec["1"])
        if third:
            text3 = bitmap_hex(third, 128)
            text += text3
            data += bitmap(text3, "1", spec["1"])
        enc["1"] = {"len": b"", "data": data}
        after["1"] = text
        out += data
    for f in fields:
        key = str(f)
        if key not in spec:
            raise Bad("Field is not defined in specification", key)
        ln, data = encode_field(doc[key], key, spec[key])
        enc[key] = {"len": ln, "data": data}
        out += ln + data
    return out, enc, after


# ------------------------------------------------------------------ pretty print


def pp_entries(doc, spec):
    """Keys in the order they are printed."""
    keys = []
    if "h" in doc and spec["h"]["max_len"] > 0:
        keys.append("h")
    keys += [k for k in ("t", "p") if k in doc]
    nums = [int(k) for k in doc if isinstance(k, str) and k and all(c in "0123456789" for c in k)]
    return keys + [str(n) for n in sorted(nums)]


def pp(doc, spec, desc_width=30, line_width=80):
    out = []
    for key in pp_entries(doc, spec):
        line = key + " " * (3 - len(key))
        if desc_width > 0:
            d = spec[key]["desc"][:desc_width]
            line += " " + d + " " * (desc_width - len(d))
        line += ": "
        value = doc[key]
        if isinstance(value, dict):
            if value.get("len"):
                line += repr(value["len"]) + " "
            value = value.get("data", b"")
        room = line_width - len(line)
        if len(repr(value)) <= room or not isinstance(value, (str, bytes)) or len(value) <= 1:
            out.append(line + repr(value) + "\n")
            continue
        chunks = []
        if isinstance(value, str):
            n = room - 2 if room > 3 else 1
            rest = value
            while rest:
                chunks.append(rest[:n])
                rest = rest[n:]
        else:
            start = 0
            while start < len(value):
                end = start + 1
                while end < len(value) and len(repr(value[start : end + 1])) <= room:
                    end += 1
                chunks.append(value[start:end])
                start = end
        pad = "\n" + " " * len(line)
        out.append(line + pad.join(repr(c) for c in chunks) + "\n")
    return "".join(out)
