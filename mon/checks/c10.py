"""C10: the format of a file or of a dictionary is identified correctly."""

import copy

import nappy

from mon import model, nautil, refparse, render
from mon.checks import c01
from mon.core import Violation, must, must_fail

CASES = {"quick": 15000, "thorough": 250000}
RULE = ("For a random content of a random FFI: the file, with and without lines to ignore, is identified and opened; "
        "the dictionary without its format index (built, read from a file, with few or no optional items) is given "
        "to chooseFFI and to openNAFile, and the file written is identified by an independent reader. Contents whose "
        "format the structure does not tell (2110 with one bounded value at every mark) are left out. Non-trivial: "
        "the content has values; distinct by content.")
REQUIRED = ["ffi-%d" % f for f in model.FFIS] + ["one-mark", "one-value-axis", "no-aux", "read", "built", "too-many", "ignored", "bad first line"]


def case(rng, i, ctx):
    ffi = model.FFIS[i % 9]
    kw = {"nmarks": rng.choice((1, 1, 2, 3, 8))}
    if rng.random() < 0.3 and ffi != 1001:
        kw["naux"] = 0
    while True:
        s = c01.make(rng, ctx, ffi=ffi, **kw)
        if not s["marks"]:
            continue
        if ffi == 2110 and all(len(m["v"]) == 1 for m in s["marks"]):
            continue
        break
    c01.features(ctx, s)
    if 1 in s.get("nx", ()):
        ctx.feature("one-value-axis")
    ctx.seen(repr(s))
    ctx.sample = repr(s)

    # Files
    ignored = [rng.choice(("1 1001", "# x", "12 2110", "", "any text at all")) for _ in range(rng.choice((0, 0, 1, 4)))]
    if ignored:
        ctx.feature("ignored")
    path = render.write(ctx.path(), render.render(s, render.Wild(rng) if rng.random() < 0.5 else None, ignored))
    got = must("readFFI", nappy.readFFI, path, len(ignored))
    if got != ffi:
        raise Violation("readFFI gives %r for a file of FFI %d after %d ignored lines" % (got, ffi, len(ignored)))
    f = must("openNAFile", nappy.openNAFile, path, ignore_header_lines=len(ignored))
    if f.getFFI() != ffi or not isinstance(f, nappy.getNAFileClass(ffi)) or type(f) is not nappy.getNAFileClass(ffi):
        raise Violation("opening a file of FFI %d gives %r of FFI %r" % (ffi, type(f), f.getFFI()))
    must("readData", f.readData)

    # A first line that tells no format is an error, whatever the lines after it say
    if rng.random() < 0.15:
        ctx.feature("bad first line")
        top = rng.choice(("", " ", "text", "%d" % ffi, "20 %s" % rng.choice(("x", "10.1", "1001x")), "20 1001 1", "# 1001"))
        bad = render.write(ctx.path(), render.render(s, None, ignored + [top]))
        must_fail("readFFI with first line %r" % top, nappy.readFFI, bad, len(ignored))
        must_fail("openNAFile with first line %r" % top, nappy.openNAFile, bad, ignore_header_lines=len(ignored))

    # Dictionaries
    if rng.random() < 0.5:
        ctx.feature("read")
        d = copy.deepcopy(f.getNADict())
    else:
        ctx.feature("built")
        d = nautil.user_dict(rng, s, numpy_ok=False)
    del d["FFI"]
    if rng.random() < 0.3:
        d["FFI"] = None
    got = must("chooseFFI", nappy.chooseFFI, d)
    if got != ffi:
        raise Violation("chooseFFI gives %r for a content of FFI %d" % (got, ffi), content=s)
    text = nautil.write_dict(ctx.path(), d, float_format="%.17g")
    if ffi == 2160 and ignored and d.get("ignored_header_lines"):
        # (this format's writer repeats the lines that were ignored)
        first = text.split("\n")[:len(ignored)]
        if [t.strip() for t in first] == [t.strip() for t in ignored]:
            text = text.split("\n", len(ignored))[-1]
    try:
        parsed = refparse.parse(text)
    except refparse.NotConformant as e:
        raise Violation("the file written without a format index (FFI %d) does not conform: %s" % (ffi, e), text=text)
    if parsed["ffi"] != ffi:
        raise Violation("the file written for a content of FFI %d is of FFI %d" % (ffi, parsed["ffi"]), text=text)
    diff = model.compare_dict(refparse.strip_text(s), refparse.strip_text(parsed))
    if diff:
        raise Violation("the file written without a format index (FFI %d): %s" % (ffi, diff), text=text)
    ctx.count("dictionaries identified")

    if rng.random() < 0.2:
        ctx.feature("too-many")
        d = nautil.user_dict(rng, s, numpy_ok=False)
        del d["FFI"]
        d["NIV"] = rng.choice((5, 6, 9))
        must_fail("chooseFFI with NIV %d" % d["NIV"], nappy.chooseFFI, copy.deepcopy(d))
        must_fail("opening with NIV %d" % d["NIV"], nappy.openNAFile, ctx.path(), "w", na_dict=d)
