"""C04: content written to a file is the content read back from it."""

import copy


from mon import model, nautil, render
from mon.checks import c01
from mon.core import Violation, must

CASES = {"quick": 8000, "thorough": 150000}
RULE = ("A random content of a random FFI is given as a dictionary (built as a user would, or obtained by reading a "
        "rendered file), written with a float format and a blank delimiter, and the written file is read: every item "
        "must be the content's, numbers of axes and data as printed by the format (exact for precise formats). "
        "Files that were read are written and read a second time too. Non-trivial: at least one data value.")
REQUIRED = ["ffi-%d" % f for f in model.FFIS] + ["built", "read", "precise", "lossy", "twice"]


def choose_format(rng, s, ctx):
    if rng.random() < 0.6:
        ctx.feature("precise")
        return rng.choice(nautil.PRECISE)
    fmt = rng.choice(nautil.LOSSY)
    if not nautil.counts_survive(s, fmt):
        fmt = "%.17g"
    ctx.feature("lossy")
    return fmt


def case(rng, i, ctx):
    s = c01.make(rng, ctx)
    c01.features(ctx, s)
    fmt = choose_format(rng, s, ctx)
    delim = rng.choice(nautil.BLANK_DELIMITERS)
    if rng.random() < 0.5:
        ctx.feature("built")
        d = nautil.user_dict(rng, s, numpy_ok=fmt not in ("%r",))
        source = "built"
    else:
        ctx.feature("read")
        text = render.render(s, render.Wild(rng) if rng.random() < 0.5 else None)
        path = render.write(ctx.path(), text)
        _, d, f = c01.read_all(path)
        source = "read"
        if rng.random() < 0.5:
            f.close()
    ctx.seen(repr((s, fmt, delim, source)))
    ctx.sample = repr((source, fmt, delim, s))
    options = {"float_format": fmt, "delimiter": delim}
    if fmt == "%.10g" and rng.random() < 0.5:
        options = {}
    out = ctx.path()
    text = nautil.write_dict(out, copy.copy(d), **options)
    want = nautil.rounded(s, options.get("float_format", "%.10g"))
    check(want, out, "after one write (%r)" % options)
    ctx.count("files written")
    if rng.random() < 0.4:
        ctx.feature("twice")
        _, d2, f = c01.read_all(out)
        out2 = ctx.path()
        nautil.write_dict(out2, d2, float_format="%.17g")
        check(want, out2, "after a second write")
        ctx.count("files written")


def check(want, path, when):
    _, got, f = c01.read_all(path)
    diff = model.compare_dict(model.to_dict(want), got)
    if diff:
        raise Violation("FFI %d %s: %s" % (want["ffi"], when, diff), text=open(path).read())
    must("close", f.close)
