"""C06: presentation options change only the presentation."""

import copy

from mon import model, nautil, present
from mon.checks import c01
from mon.core import Violation

CASES = {"quick": 9000, "thorough": 150000}
RULE = ("A random content is written with default options and with three random combinations of delimiter, float "
        "format, annotation and header suppression. Every line of every file is judged: its description, the kind "
        "and number of its items, their order, values, printed form and separators; and the file without header is "
        "compared byte for byte with the data section. Non-trivial: at least one data value.")
REQUIRED = ["ffi-%d" % f for f in model.FFIS] + ["annotation", "no_header", "delimiter", "float_format", "all"]


def case(rng, i, ctx):
    s = c01.make(rng, ctx)
    c01.features(ctx, s)
    d = nautil.user_dict(rng, s)
    ctx.seen(repr(s))
    ctx.sample = repr(s)
    text = nautil.write_dict(ctx.path(), copy.deepcopy(d))
    diff = present.judge(text, s)
    if diff:
        raise Violation("default output: " + diff, text=text)
    label = present.labels()
    for _ in range(3):
        o = {}
        if rng.random() < 0.6:
            o["delimiter"] = rng.choice(nautil.DELIMITERS)
        if rng.random() < 0.5:
            o["float_format"] = rng.choice(nautil.LOSSY + ("%.17g", "%.17e", "%20.10f"))
        if rng.random() < 0.5:
            o["annotation"] = True
        ctx.feature(*o)
        if len(o) == 3:
            ctx.feature("all")
        full = nautil.write_dict(ctx.path(), copy.deepcopy(d), **o)
        diff = present.judge(full, s, label=label, **o)
        if diff:
            raise Violation("FFI %d, options %r: %s" % (s["ffi"], o, diff), text=full)
        ctx.count("files judged")
        if rng.random() < 0.5:
            ctx.feature("no_header")
            nhead = present.expected_lines(s)[1]
            o["no_header"] = True
            data = nautil.write_dict(ctx.path(), copy.deepcopy(d), **o)
            want = "".join(line + "\n" for line in full.split("\n")[nhead:-1])
            if data != want:
                raise Violation("FFI %d, options %r: without header the file is not exactly the data section"
                                % (s["ffi"], o), text=data, expected=want)
            ctx.count("files judged")
