"""C02: what is read does not depend on the layout of the file."""

import nappy

from mon import model, render
from mon.checks import c01
from mon.core import Violation

CASES = {"quick": 12000, "thorough": 200000}
RULE = ("A random content is rendered plainly and in 2-4 random layouts (wrapped records, blanks and tabs, "
        "annotations, other notations of the same numbers, blank lines and unfinished line at the end, CRLF, "
        "lines to be ignored before the header); all are read and must hold the stated content. Non-trivial: the "
        "rendered texts differ and hold values.")
REQUIRED = ["ffi-%d" % f for f in model.FFIS] + list(render.Wild.ALL) + ["ignored-lines"]

PREAMBLE = ("# a comment line", "", "   ", "1 1001", "42   2010", "END", "some text {with} braces", "10 10 10 10",
            "{only an annotation}", "'quoted'", "\tindented", "0", "=====")


def case(rng, i, ctx):
    s = c01.make(rng, ctx)
    plain = render.render(s)
    ctx.seen(plain)
    ctx.sample = plain
    c01.features(ctx, s)
    texts = {plain}
    for _ in range(rng.randint(2, 4)):
        lay = render.Wild(rng)
        ignored = []
        if rng.random() < 0.4:
            ignored = [rng.choice(PREAMBLE) for _ in range(rng.randint(1, 6))]
            ctx.feature("ignored-lines")
        text = render.render(s, lay, ignored)
        texts.add(text)
        ctx.feature(*lay.only)
        ctx.count("layouts read")
        path = render.write(ctx.path(), text)
        try:
            got = c01.judge(s, path, len(ignored))
        except Violation as e:
            e.detail["layout"] = sorted(lay.only)
            e.detail["file"] = text
            e.detail["ignored"] = ignored
            raise
        ffi = nappy.readFFI(path, len(ignored))
        if ffi != s["ffi"]:
            raise Violation("readFFI gives %s for a file of FFI %d with ignored lines %r" % (ffi, s["ffi"], ignored))
        if got["NLHEAD"] - len(ignored) not in (len(render.header_lines(s, render.Layout())) + 1,) and \
                "wrap" not in lay.only and got["NLHEAD"] != len(render.header_lines(s, render.Layout())) + 1:
            raise Violation("NLHEAD is reported as %s" % got["NLHEAD"])
    ctx.nontrivial = ctx.nontrivial and len(texts) > 1
