"""C07: writing and reading leave the caller's content intact and are repeatable."""

import copy

import nappy

from mon import model, nautil, render
from mon.checks import c01
from mon.core import Violation, must

CASES = {"quick": 7000, "thorough": 120000}
RULE = ("A history of 3-9 operations (writes of one dictionary with random options to random targets, reads of the "
        "data, requests of the contents dictionary) runs on one dictionary or one open file. After every write the "
        "dictionary is compared with a deep copy made before and the file with one written, with the same options, "
        "from a fresh copy; after every read the contents are compared with the first. Non-trivial: a history with "
        "at least two writes, or two reads, of content that has values.")
REQUIRED = ["ffi-%d" % f for f in model.FFIS] + ["dictionary", "object", "write", "readData", "getNADict", "untidy texts"]


def options(rng):
    o = {}
    if rng.random() < 0.5:
        o["delimiter"] = rng.choice(nautil.DELIMITERS)
    if rng.random() < 0.5:
        o["float_format"] = rng.choice(nautil.PRECISE[:4] + nautil.LOSSY)
    if rng.random() < 0.4:
        o["annotation"] = True
    if rng.random() < 0.3:
        o["no_header"] = True
    return o


def write(path, d, o):
    return nautil.write_dict(path, d, **o)


def plain(o):
    """A deep copy that holds no numpy arrays (for comparison)."""
    return copy.deepcopy(o)


def untidy(rng, d):
    """Texts as users leave them: with blanks at their ends, or quotes around them."""
    def text(t):
        return rng.choice((t, t, t + rng.choice((" ", "   ", "\t")), " " + t, '"%s"' % t, "'%s'" % t)) \
            if isinstance(t, str) else t
    for key in ("ONAME", "ORG", "SNAME", "MNAME"):
        d[key] = text(d[key])
    for key in ("XNAME", "VNAME", "ANAME", "SCOM", "NCOM"):
        if key in d:
            d[key] = [text(t) for t in d[key]]


def case(rng, i, ctx):
    s = c01.make(rng, ctx)
    c01.features(ctx, s)
    history = []
    ctx.sample = None
    if rng.random() < 0.5:
        ctx.feature("dictionary")
        d = nautil.user_dict(rng, s, numpy_ok=False)
        if rng.random() < 0.3:
            untidy(rng, d)
            ctx.feature("untidy texts")
        run_writes(rng, ctx, d, s, history, rng.randint(2, 6))
    else:
        ctx.feature("object")
        path = render.write(ctx.path(), render.render(s, render.Wild(rng)))
        run_object(rng, ctx, path, s, history)
    ctx.seen(repr((s, history)))
    ctx.sample = repr((history, s))
    if len(history) < 2:
        ctx.nontrivial = False


def run_writes(rng, ctx, d, s, history, n):
    before = plain(d)
    one = None
    for _ in range(n):
        o = options(rng) if one is None or rng.random() < 0.6 else one
        one = o
        history.append(("write", o))
        ctx.feature("write")
        got = write(ctx.path(), d, o)
        want = write(ctx.path(), plain(before), o)
        ctx.count("writes")
        diff = model.compare_dict(before, d)
        if diff:
            raise Violation("FFI %d: after %r the caller's dictionary has changed: %s" % (s["ffi"], history, diff))
        extra = set(d) - set(before) - {"FFI"}
        if extra:
            raise Violation("FFI %d: after %r the caller's dictionary has new items: %s" % (s["ffi"], history, extra))
        if got != want:
            raise Violation("FFI %d: after %r the file differs from that of a fresh copy" % (s["ffi"], history),
                            got=got, want=want)


def run_object(rng, ctx, path, s, history):
    f = must("opening", nappy.openNAFile, path)
    want = model.to_dict(s)
    read = False
    dicts = []
    raw = open(path, "rb").read()
    for _ in range(rng.randint(3, 8)):
        op = rng.choice(("readData", "readData", "getNADict", "write", "other")) if read else \
            rng.choice(("readData", "getNADict"))
        history.append(op)
        ctx.feature(op)
        if op == "readData":
            must("readData after %r" % history, f.readData)
            read = True
            ctx.count("reads")
        elif op == "getNADict":
            d = must("getNADict", f.getNADict)
            if read:
                dicts.append(d)
        elif op == "other":
            # another object on the same file
            _, got, g = c01.read_all(path)
            diff = model.compare_dict(want, got)
            if diff:
                raise Violation("FFI %d: after %r another object on the file: %s" % (s["ffi"], history, diff))
        else:
            d = dicts[-1] if dicts and rng.random() < 0.5 else must("getNADict", f.getNADict)
            run_writes(rng, ctx, d, s, history, 1)
        if read:
            for d in [f.getNADict()] + dicts:
                diff = model.compare_dict(want, d)
                if diff:
                    raise Violation("FFI %d: after %r: %s" % (s["ffi"], history, diff))
    if open(path, "rb").read() != raw:
        raise Violation("FFI %d: after %r the file read has changed" % (s["ffi"], history))
