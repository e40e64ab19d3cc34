"""C12: calls made from inside other calls (stream, specification or codec callbacks)."""
import codecs

from .. import ref
from .. import spaces as S
from ..engine import LAST, Violation
from ..spaces import F
from .conc import NAMES, PPDOC1, PPDOC2, SNAP1, SNAP2, WANT, World, norm
from .history import DOC1, DOC2, RAW1, RAW2
from .printing import Out

_HOOK = [None]


def _fire():
    if _HOOK[0] is not None:
        _HOOK[0]()


def _dec(b, errors="strict"):
    _fire()
    return codecs.latin_1_decode(b, errors)


def _enc(s, errors="strict"):
    _fire()
    return codecs.latin_1_encode(s, errors)


codecs.register(lambda name: codecs.CodecInfo(_enc, _dec, name="mcnested") if name == "mcnested" else None)


class Spec(dict):
    """A specification that notices being read."""

    def __getitem__(self, k):
        _fire()
        return dict.__getitem__(self, k)


class Stream(Out):
    def write(self, s):
        r = Out.write(self, s)
        _fire()
        return r


def _codec_spec():
    spec, doc = S.env(0)
    for k in ("t", "p", "1"):
        spec[k] = dict(spec[k], data_enc="mcnested")
    spec["h"] = F("mcnested", "mcnested", 1, 6)
    spec["2"] = F("mcnested", "mcnested", 2, 19)
    spec["3"] = F("b", "mcnested", 2, 5, len_count="nibbles", left_pad="0")
    spec["66"] = F("mcnested", "b", 1, 9)
    spec["129"] = F("mcnested", ml=1)
    doc.update({"h": "HD", "2": "12345", "3": "abc", "66": "xyz", "129": "q"})
    return spec, doc


CSPEC, CDOC = _codec_spec()
CRAW, CENC, CAFTER = ref.encode(dict(CDOC), CSPEC)
CDEC = ref.decode(CRAW, CSPEC)
OUTER = ["pp1", "pp2", "enc1", "enc2", "dec1", "dec2", "encbad", "decbad", "codec enc", "codec dec"]


def _outer(w, name):
    """-> (call, expected) of a call with observable callbacks."""
    a = w.a
    s1, s2 = (Spec({k: v for k, v in s.items()}) for s in (w.s1, w.s2))
    if name in ("pp1", "pp2"):
        out = Stream()
        doc, spec = (PPDOC1, s1) if name == "pp1" else (PPDOC2, s2)
        return (lambda: (a.pp(doc, spec, 8, out, 40), out.text())[1]), WANT[name]
    if name == "enc1":
        d = dict(DOC1)
        return (lambda: (a.encode(d, s1), d)), WANT[name]
    if name == "enc2":
        d = dict(DOC2)
        return (lambda: (a.encode(d, s2), d)), WANT[name]
    if name == "dec1":
        return (lambda: a.decode(RAW1, s1)), WANT[name]
    if name == "dec2":
        return (lambda: a.decode(RAW2, s2)), WANT[name]
    if name in ("encbad", "decbad"):
        def bad():
            try:
                if name == "encbad":
                    a.encode(dict(DOC1, **{"66": "XY"}), s1)
                else:
                    a.decode(RAW1[:-1], s1)
            except (a.EncodeError if name == "encbad" else a.DecodeError) as e:
                return (e.msg, e.field, getattr(e, "pos", None), {k: e.doc_enc[k] for k in e.doc_enc if k != e.field})
            return "no error"
        return bad, WANT[name]
    if name == "codec enc":
        d = dict(CDOC)
        return (lambda: (a.encode(d, CSPEC), d)), ((CRAW, CENC), CAFTER)
    return (lambda: a.decode(CRAW, CSPEC)), CDEC


def _n(x):
    if isinstance(x, bytearray):
        return bytes(x)
    return tuple(_n(y) for y in x) if isinstance(x, (tuple, list)) else x


def _count(name):
    n = [0]

    def hit():
        n[0] += 1
    call, _ = _outer(World(), name)
    _HOOK[0] = hit
    try:
        call()
    finally:
        _HOOK[0] = None
    return n[0]


def nested(th):
    counts = {}

    def fn(ch):
        name = ch.pick(OUTER)
        if name not in counts:
            counts[name] = _count(name)
        if counts[name] == 0:
            return "no callback"
        k = ch.choose(counts[name])
        inner = [ch.pick(NAMES + ["codec enc", "codec dec"])]
        if th:
            inner.append(ch.pick(["enc1b", "dec2", "pp1"]))
        w = World()
        seen = [0]
        wrong = []

        def hook():
            seen[0] += 1
            if seen[0] - 1 != k:
                return
            for i in inner:
                c, want = _outer(w, i) if i.startswith("codec") else (w.call(i), WANT[i])
                try:
                    got = c()
                except Exception as e:
                    got = repr(e)
                if _n(got) != _n(want):
                    wrong.append((i, got, want))
        LAST[0] = ("nested", name, "callback %d" % k, inner)
        call, want = _outer(w, name)
        _HOOK[0] = hook
        try:
            got = call()
        finally:
            _HOOK[0] = None
        if wrong:
            raise Violation("%s called from inside %s gave a different result" % (wrong[0][0], name), {"got": wrong[0][1], "expected": wrong[0][2]})
        if _n(got) != _n(want):
            raise Violation("%s gave a different result because %s was called meanwhile in the same thread" % (name, inner), {"got": got, "expected": want})
        for i in [name if not name.startswith("codec") else "enc1b", "dec1", "pp2"]:
            if norm(w.call(i)()) != norm(WANT[i]):
                raise Violation("%s behaves differently after nested calls" % i)
        if w.s1 != SNAP1 or w.s2 != SNAP2:
            raise Violation("a specification was modified by nested calls")
        return "nested in " + name
    return fn
