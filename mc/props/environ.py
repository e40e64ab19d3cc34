"""C12: outcomes do not depend on the interpreter's settings (hash seed, optimisation level, locale and UTF-8 mode)."""
import json
import os
import subprocess
import sys

from .. import api, engine, ref
from .. import judges as J
from .. import spaces as S
from ..api import std as A
from ..engine import LAST, Skip, Violation
from ..spaces import F

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def calls():
    """(operation, specification, argument): messages and dictionaries with many fields and many mistakes."""
    from .history import _bad_calls
    out = list(_bad_calls())
    spec, doc = S.env(0)
    full = dict(spec)
    for f in list(range(2, 65)) + list(range(66, 193)):
        full[str(f)] = (F("ascii", "ascii", 2, 9), F("b", "bcd", 1, 9, len_count="nibbles", left_pad="0"), F("cp500", ml=2), F("utf-8", "b", 1, 9))[f % 4]
    vals = ("abc", "123", "zz", "é€")

    def some(fs, rev=False):
        d = dict(doc)
        for f in (reversed(fs) if rev else fs):
            d[str(f)] = vals[f % 4]
        return d
    every = [f for f in range(2, 193) if f != 65]
    sets = [every, every[::3], every[:64], every[64:], every[::-7], [5, 77, 140], [192, 2], list(range(100, 128))]
    for fs in sets:
        for rev in (False, True):
            d = some(fs, rev)
            out.append(("encode", full, d))
            for bad in (["x"], ["7", "80"], ["3", "66", "130"]):
                b = dict(d)
                for k in bad:
                    b[k] = "too long a value for any field"
                out.append(("encode", full, b))
        raw = ref.encode(some(fs), full)[0]
        out += [("decode", full, raw), ("decode", full, raw[:-1]), ("decode", full, raw + b"0"), ("decode", full, raw[: len(raw) // 2])]
        few = {k: v for k, v in full.items() if not k.isdigit() or int(k) % 5}
        out += [("decode", few, raw), ("encode", few, some(fs)), ("decode", {k: v for k, v in full.items() if k != "1"}, raw)]
        dec, enc = ref.decode(raw, full)
        out += [("pp", full, dec), ("pp", full, enc), ("pp", full, dict(reversed(list(enc.items()))))]
    odd = dict(doc, **{k: "x" for k in ("193", "0", "²", "007", "٣", "1000", "500", "x1", "04")})
    out.append(("encode", full, odd))
    out.append(("encode", full, {k: v for k, v in odd.items() if k.isascii() and not (k[0] == "0" and k != "0")}))
    out.append(("encode", full, dict(doc, **{"9": None, "8": 5})))
    out.append(("encode", full, {**doc, 5: "x", None: "y", b"1z": "z", ("t",): "w", 2.5: ""}))
    return out


def _show(x):
    """Text that does not depend on the order of sets or on addresses."""
    if isinstance(x, dict):
        return "{%s}" % ", ".join("%r: %s" % (k, _show(v)) for k, v in x.items())
    if isinstance(x, tuple):
        return "(%s)" % ", ".join(map(_show, x))
    return "%s %r" % (type(x).__name__, x)


def _sorted(d):
    return {k: d[k] for k in sorted(d, key=repr)}


def _rest(d, field):
    return _show(_sorted({k: v for k, v in d.items() if k != field}))


def observed(a, op, spec, x):
    from .printing import Out
    if op == "encode":
        d = dict(x)
        try:
            raw, enc = a.encode(d, spec)
        except a.EncodeError as e:
            return "EncodeError %r %r %s" % (e.msg, e.field, _rest(e.doc_enc, e.field))
        return _show((bytes(raw), _sorted(enc), _sorted(d)))
    if op == "decode":
        try:
            return _show(a.decode(x, spec))
        except a.DecodeError as e:
            return "DecodeError %r %r %r %s %s" % (e.msg, e.field, e.pos, _rest(e.doc_dec, e.field), _rest(e.doc_enc, e.field))
    out = Out()
    a.pp(x, spec, 10, out, 33)
    return out.text()


def expected(op, spec, x):
    try:
        if op == "encode":
            raw, enc, after = ref.encode(dict(x), spec)
            return _show((raw, _sorted(enc), _sorted(after)))
        if op == "decode":
            return _show(ref.decode(x, spec))
    except ref.Bad as b:
        if op == "encode":
            return "EncodeError %r %r %s" % (b.msg, b.field, _rest(b.enc, b.field))
        return "DecodeError %r %r %r %s %s" % (b.msg, b.field, b.pos, _rest(b.dec, b.field), _rest(b.enc, b.field))
    return ref.pp(x, spec, 10, 33)


_WANT = []


def _compare(args, env, how):
    """Run the calls in a new interpreter and compare every outcome with the reference."""
    env = {"PATH": os.environ.get("PATH", ""), "MC_REPO": api.REPO, "PYTHONIOENCODING": "utf-8", **env}
    with engine.waiting():
        r = subprocess.run([sys.executable, "-B"] + args, cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=150)
    if r.returncode or not r.stdout:
        raise Violation("the calls fail %s" % how, {"stderr": r.stderr.decode("utf-8", "replace")[-1500:]})
    got = json.loads(r.stdout)
    if len(got) != len(_WANT):
        raise Violation("the calls ended early %s" % how)
    for (op, spec, x), g, w in zip(calls(), got, _WANT):
        if g != w:
            LAST[0] = LAST[0] + (op, spec, x)
            raise Violation("%s behaves differently %s" % (op, how), {"got": g, "expected": w})


def environments(th):
    def fn(ch):
        if not _WANT:
            _WANT.extend(expected(*c) for c in calls())
        opt = ch.pick(([], ["-O"], ["-OO"]))
        loc = ch.pick(({}, {"PYTHONUTF8": "1"}, {"PYTHONUTF8": "0", "LC_ALL": "C", "PYTHONCOERCECLOCALE": "0"}))
        seed = ch.choose(32 if th else 6)
        LAST[0] = ("interpreter settings", opt, loc, "PYTHONHASHSEED=%d" % seed)
        _compare(opt + ["-m", "mc.props.environ"], dict(loc, PYTHONHASHSEED=str(seed)), "with interpreter settings %s" % (LAST[0][1:],))
        return "same"
    return fn


# ---- the same calls made from every kind of surroundings

def _thread(run, size=0):
    import threading
    out = []
    threading.stack_size(size)
    t = threading.Thread(target=lambda: out.append(run()))
    t.start()
    t.join()
    return out[0]


def _fork(run):
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        with os.fdopen(w, "w") as f:
            json.dump(run(), f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        out = json.load(f)
    os.waitpid(pid, 0)
    return out


def _asyncio(run):
    import asyncio

    async def one():
        await asyncio.sleep(0)
        return run()

    async def main():
        return (await asyncio.gather(one(), one()))[1]
    return asyncio.run(main())


def _generator(run):
    def gen():
        yield 0
        yield run()
    return list(gen())[1]


def _closing(run):
    out = []

    def gen():
        try:
            yield 0
        finally:
            out.append(run())
    g = gen()
    next(g)
    g.close()
    return out[0]


def _del(run):
    out = []

    class C:
        def __del__(self):
            out.append(run())
    C()
    return out[0]


def _handler(run):
    try:
        raise KeyError("active")
    except KeyError:
        return run()


def _signal(run):
    import signal
    out = []
    signal.signal(signal.SIGUSR1, lambda *a: out.append(run()))
    signal.raise_signal(signal.SIGUSR1)
    return out[0]


def _nostreams(run):
    old = sys.stdin, sys.stdout, sys.stderr
    sys.stdin = sys.stdout = sys.stderr = None
    try:
        return run()
    finally:
        sys.stdin, sys.stdout, sys.stderr = old


def _noenv(run):
    os.environ.clear()
    return run()


def _cwd(run):
    import tempfile
    d = tempfile.mkdtemp()
    os.chdir(d)
    os.rmdir(d)
    try:
        return run()
    finally:
        os.chdir("/")


def _gc(run):
    import gc
    gc.disable()
    return run()


def _gcalways(run):
    import gc
    gc.set_threshold(7)
    return run()


def _trace(run):
    def t(*a):
        return t
    sys.settrace(t)
    try:
        return run()
    finally:
        sys.settrace(None)


def _locale(run):
    import locale
    locale.setlocale(locale.LC_ALL, "")
    return run()


def _digits(n):
    def fn(run):
        sys.set_int_max_str_digits(n)
        return run()
    return fn


def _warnings(run):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        return run()


def _context(run):
    import contextvars
    return contextvars.Context().run(run)


def _deep(run, n=300):
    return run() if n == 0 else _deep(run, n - 1)


def _reimported(run):
    global A
    A = api.fresh()
    A = api.fresh()
    return run()


def _subclassed(run):
    # other users of the same standard modules
    import binascii
    import codecs
    codecs.register_error("strict", codecs.strict_errors)
    binascii.crc32(b"")
    return run()


def _clock(now, step=0.0):
    """The clocks say what they like (and everything that could read them is loaded again)."""
    def fn(run):
        import datetime
        import random
        import time
        state = [float(now)]

        def tick():
            state[0] += step
            return state[0]
        for n in ("time", "monotonic", "perf_counter", "process_time"):
            setattr(time, n, tick)
            setattr(time, n + "_ns", lambda: int(tick() * 10 ** 9))

        class Datetime(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(min(max(tick(), 0), 2 ** 37), tz)

            utcnow = today = now
        datetime.datetime = Datetime
        random.seed(int(now))
        return _reimported(run)
    return fn


def _linesep(run):
    os.linesep = "\r\n"
    return _reimported(run)


def _argv(run):
    sys.argv[:] = ["iso8583", "--debug", "-v", "x"]
    return _reimported(run)


def _logging(run):
    import logging
    logging.basicConfig(level=1, stream=open(os.devnull, "w"))
    logging.disable(logging.NOTSET)
    return _reimported(run)


def _debugging(run):
    for n in ("pytest", "unittest", "pdb", "pydevd", "IPython", "coverage", "gevent"):
        sys.modules.setdefault(n, type(sys)(n))
    sys.ps1 = ">>> "
    return _reimported(run)


class Recording(type(os.environ)):
    """The environment, noting which variables are looked at."""
    names = []

    def __getitem__(self, k):
        if isinstance(k, str) and k not in Recording.names:
            Recording.names.append(k)
        return super().__getitem__(k)


def variables_read():
    """Names of the environment variables that loading the library and making the calls looks at."""
    global A
    os.environ.__class__ = Recording
    A = api.fresh()
    for c in calls():
        observed(A, *c)
    return Recording.names


KNOWN = ({"COLUMNS": "20", "LINES": "5", "TERM": "dumb", "NO_COLOR": "1", "DEBUG": "1", "CI": "true", "HOME": "/", "USER": "x", "TZ": "Asia/Tokyo", "LOGLEVEL": "DEBUG", "ISO8583_DEBUG": "1", "PYISO8583_DEBUG": "1"},
         {"COLUMNS": "300", "TERM": "xterm-256color", "FORCE_COLOR": "1", "CLICOLOR_FORCE": "1", "COLORTERM": "truecolor", "LANG": "tr_TR.UTF-8", "LANGUAGE": "ar", "LC_NUMERIC": "ar_EG.UTF-8", "PYTHONIOENCODING": "cp500", "TZ": "America/New_York"},
         {"COLUMNS": "0", "LINES": "0", "TERM": "", "LANG": "", "PYTHONIOENCODING": "ascii:replace", "PYTHONDEVMODE": "1", "PYTHONINTMAXSTRDIGITS": "640", "PYTHONMALLOC": "debug"})
VALUES = ("", "0", "1", "-1", "3", "20", "1000", "true", "off", "debug", "cp500", "x")
_READ = {}


def variables(ch):
    """Environment variables: some well-known ones, and each one the library looks at with several values."""
    if not _WANT:
        _WANT.extend(expected(*c) for c in calls())
    if "names" not in _READ:
        env = {"PATH": os.environ.get("PATH", ""), "MC_REPO": api.REPO, "PYTHONIOENCODING": "utf-8", "PYTHONHASHSEED": "1"}
        with engine.waiting():
            r = subprocess.run([sys.executable, "-B", "-m", "mc.props.environ", "--variables"], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=150)
        if r.returncode:
            raise Violation("the calls fail", {"stderr": r.stderr.decode("utf-8", "replace")[-1500:]})
        _READ["names"] = [n for n in json.loads(r.stdout) if n not in ("PATH", "MC_REPO", "PYTHONHOME", "PYTHONPATH")]
    sets = list(KNOWN) + [{n: v} for n in _READ["names"] for v in VALUES]
    env = ch.pick(sets)
    LAST[0] = ("environment variables", env)
    _compare(["-m", "mc.props.environ"], dict({"PYTHONHASHSEED": "1"}, **env), "with environment variables %s" % env)
    return "same"


CONTEXTS = {"plain": lambda run: run(), "thread": _thread, "thread with a small stack": lambda run: _thread(run, 1 << 18), "forked process": _fork, "asyncio task": _asyncio, "generator": _generator,
            "generator being closed": _closing, "finaliser": _del, "exception handler": _handler, "signal handler": _signal, "no standard streams": _nostreams, "empty environment": _noenv,
            "deleted working directory": _cwd, "garbage collection off": _gc, "garbage collection all the time": _gcalways, "traced": _trace, "locale set": _locale, "long integers unlimited": _digits(0),
            "long integers limited": _digits(640), "warnings are errors": _warnings, "empty context": _context, "deep stack": _deep, "imported again": _reimported, "codec error handlers": _subclassed,
            "clock at zero": _clock(0), "clock far ahead": _clock(4e9), "clock running fast": _clock(1.7e9, 4000.0), "clock running backwards": _clock(1.7e9, -4000.0), "other line ends": _linesep,
            "program arguments": _argv, "logging on": _logging, "tools loaded": _debugging}
ATEXIT = "interpreter exit"
OPTIONS = ([], ["-bb", "-Werror"], ["-X", "dev"], ["-X", "frozen_modules=off"], ["-O", "-X", "tracemalloc"], ["-S", "-s", "-u"])


def surroundings(th):
    def fn(ch):
        if not _WANT:
            _WANT.extend(expected(*c) for c in calls())
        where = ch.pick(list(CONTEXTS) + [ATEXIT])
        opt = ch.pick(OPTIONS)
        if where != "plain" and opt and not th:
            raise Skip()
        LAST[0] = ("surroundings", where, opt)
        _compare(opt + ["-m", "mc.props.environ", "--in", where], {"PYTHONHASHSEED": "1"}, "made from: %s %s" % (where, " ".join(opt)))
        return "same"
    return fn


SWEEPS = [("C14", n) for n in ("r_mutate/dec_diag", "r_bitmaptext/dec_diag", "r_bitmapcodec/dec_diag", "r_nibbles/dec_diag", "r_degenerate/dec_diag", "r_shipped/dec_diag", "d_field/enc_diag", "d_hex/enc_diag", "d_text/enc_diag", "d_fail/enc_diag")] + [
    ("C05", "r_tail/dec_vs_ref"), ("C05", "r_prefix/dec_vs_ref"), ("C10", "d_odd/enc_odd"), ("C10", "codec_faults/enc_total"), ("C03", "codec_faults/dec_total"), ("C07", "bitmap_encodings/enc_vs_ref"),
    ("C08", "field65_defined/dec_vs_ref"), ("C09", "d_field/enc_vs_ref"), ("C19", "d_space/enc_vs_ref"), ("C19", "r_hexall/dec_vs_ref"), ("C11", "cycles"), ("C16", "messages/content"), ("C20", "d_field/enc_plain")]


def _find(pid, name):
    from ..main import all_props
    return [h for h in all_props()[pid]("quick")[0] if h.name == name][0]


def sweeps(th):
    def fn(ch):
        pid, name = ch.pick(SWEEPS)
        opt = ch.pick(("-O", "-OO"))
        if opt == "-OO" and not th:
            raise Skip()
        LAST[0] = ("sweep", opt, pid, name)
        env = {"PATH": os.environ.get("PATH", ""), "MC_REPO": api.REPO, "PYTHONIOENCODING": "utf-8"}
        with engine.waiting():
            r = subprocess.run([sys.executable, "-B", opt, "-m", "mc.props.environ", pid, name], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=600)
        if r.returncode:
            raise Violation("the exploration of %s %s fails with %s" % (pid, name, opt), {"stderr": r.stderr.decode("utf-8", "replace")[-1500:]})
        n, v = json.loads(r.stdout)
        if v is not None and engine.replay(_find(pid, name), v["choices"]) is None:
            LAST[0] += (v["input"],)
            raise Violation("behaves differently with %s: %s" % (opt, v["msg"]), {"harness": name, "choices": v["choices"], "detail": v["case"], "input": v["input"]})
        return "%s %s: %d executions" % (pid, name, n)
    return fn


if __name__ == "__main__":
    import io
    OUT = io.TextIOWrapper(sys.stdout.buffer, "ascii", write_through=True)  # whatever the settings say
    if sys.argv[1:2] == ["--variables"]:
        json.dump(variables_read(), OUT)
    elif sys.argv[1:2] == ["--in"]:
        stdout = OUT

        def run():
            return [observed(A, *c) for c in calls()]
        if sys.argv[2] == ATEXIT:
            import atexit
            atexit.register(lambda: (json.dump(run(), stdout), stdout.flush()))
        else:
            json.dump(CONTEXTS[sys.argv[2]](run), stdout)
    elif len(sys.argv) == 3:
        st, viol = engine.explore_subtree(_find(*sys.argv[1:]), (), ())
        if viol is not None:
            viol = {"choices": viol["choices"], "msg": viol["msg"], "case": engine.safe_repr(viol.get("case"))[:1500], "input": engine.safe_repr(viol.get("input"))[:3000]}
        json.dump([st.executions, viol], OUT)
    else:
        json.dump([observed(A, *c) for c in calls()], OUT)
