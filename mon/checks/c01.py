"""C01: reading a conformant file yields exactly the content the file states."""

import nappy

from mon import model, render
from mon.core import Violation, must

CASES = {"quick": 24000, "thorough": 400000}
RULE = ("A random abstract content of a random FFI is rendered by an independent writer (plain or in a random "
        "layout) and opened and read with nappy; every item nappy holds is compared with the content. "
        "Non-trivial: the file holds at least one data value; distinct by the text of the file.")
REQUIRED = ["ffi-%d" % f for f in model.FFIS] + ["implicit-axis", "mark-without-values", "one-mark", "missing-value"]
ASSUMPTIONS = ["text items have no blanks, quotes or annotations at their ends, which the format cannot hold"]


def features(ctx, s):
    ctx.feature("ffi-%d" % s["ffi"])
    if len(s["marks"]) == 1:
        ctx.feature("one-mark")
    if not s["marks"]:
        ctx.feature("no-mark")
    if not s.get("aname", True):
        ctx.feature("no-aux")
    if not s["scom"] and not s["ncom"]:
        ctx.feature("no-comments")
    if any(a < b for a, b in zip(s.get("nxdef", ()), s.get("nx", ()))):
        ctx.feature("implicit-axis")
    if len(set(s.get("nxdef", ()))) > 1:
        ctx.feature("axes-with-different-nxdef")
    if s["ffi"] in (2110, 2160, 2310) and any(not m["v"] or not m["v"][0] for m in s["marks"]):
        ctx.feature("mark-without-values")
    for m in s["marks"]:
        for n, v in enumerate(m["v"]):
            if v == s["vmiss"][min(n, len(s["vmiss"]) - 1)] or \
                    (isinstance(v, list) and s["vmiss"][min(n, len(s["vmiss"]) - 1)] in v):
                ctx.feature("missing-value")
                break
    ctx.count("values", model.nrows(s))
    ctx.nontrivial = model.nrows(s) > 0


def make(rng, ctx, **kw):
    kw.setdefault("ffi", rng.choice(model.FFIS))
    if rng.random() < 0.03:
        kw["nmarks"] = 0
    if rng.random() < 0.03:
        kw["nv"] = rng.randint(15, 40)
    if rng.random() < 0.003:
        kw["nmarks"] = rng.randint(200, 700)
    return model.Gen(rng, digits=rng.choice((3, 6, 10, 15)), odd=rng.random() < 0.2).content(**kw)


def read_all(path, ignored=0):
    """(header contents, full contents, object)"""
    f = must("opening", nappy.openNAFile, path, ignore_header_lines=ignored)
    head = dict(must("getNADict", f.getNADict))
    must("readData", f.readData)
    return head, must("getNADict", f.getNADict), f


def case(rng, i, ctx):
    s = make(rng, ctx)
    lay = render.Wild(rng) if rng.random() < 0.3 else render.Layout()
    text = render.render(s, lay)
    ctx.seen(text)
    ctx.sample = text
    features(ctx, s)
    path = render.write(ctx.path(), text)
    judge(s, path)
    ctx.count("files read")


def judge(s, path, ignored=0):
    head, got, f = read_all(path, ignored)
    want_head = model.to_dict(s, header_only=True)
    want = model.to_dict(s)
    for name, w, g in (("header before the data are read", want_head, head), ("contents", want, got)):
        # the last bounded items of these are part of the data
        diff = model.compare_dict(w, g, ignore=("NX",) if w is want_head and s["ffi"] in (2110, 2160, 2310) else ())
        if diff:
            raise Violation("%s of FFI %d: %s" % (name, s["ffi"], diff), text=open(path, newline="").read())
    for k, v in want.items():
        if not model.same(v, getattr(f, k)):
            raise Violation("attribute of FFI %d: %s" % (s["ffi"], model.first_difference(v, getattr(f, k), k)))
    if s["ffi"] == 1001 and ("A" in got or "NX" in got):
        raise Violation("an FFI 1001 file has no auxiliary data, but A or NX is given")
    for key in ("A", "ASCAL", "ANAME", "AMISS"):
        if got.get(key) and key not in want:
            raise Violation("%s is reported but the file has none: %r" % (key, got[key]))
    must("close", f.close)
    return got
