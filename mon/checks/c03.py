"""C03: malformed or truncated files are rejected, never misread, and never hang."""

import nappy

from mon import model, render
from mon.core import Violation, attempt

CASES = {"quick": 1800, "thorough": 30000}
LEVEL = "fault_enumeration"
RULE = ("For each random conformant file, every single fault of the listed kinds is injected at every position of "
        "the header and (up to 40 lines of) the data, one at a time, and the file is opened and read: an error must "
        "be raised. The unfaulted file must be accepted. Reads at end of file and CPU time are watched. "
        "Non-trivial: at least one fault of five kinds was injected; distinct by the text of the file.")
REQUIRED = ["ffi-%d" % f for f in model.FFIS] + [
    "header stops early", "header item missing", "header item surplus", "header line missing",
    "header text for a number", "header count not whole", "header count negative", "data count not whole",
    "data count negative", "data stop in a record", "data stop in a line", "data value surplus at the end",
    "data line surplus at the end", "data value missing", "data value surplus", "data text for a number", "blank line between data lines"]

TEXT_FOR_NUMBER = ("abc", "1.2.3", "--", "1e", "N/A", "12,5", "x1", "1-2", "*****", "0x1F", "2004/01/02", "1.0E", "five")
NUMERIC_HEADER = {"top", "ivol", "date", "dx", "nvpm", "nx", "nxdef", "xdef", "lenx", "nv", "vscal", "vmiss", "nauxv",
                  "nauxc", "ascal", "amiss", "lena", "nscoml", "nncoml"}
COUNTS = {"nvpm", "nx", "nxdef", "nv", "nauxv", "nauxc", "nscoml", "nncoml"}
WHOLE = COUNTS | {"top", "ivol", "date", "lenx", "lena"}
TEXT_DATA = {"x", "ac"}
FIXED = (1001, 1010, 1020, 2010, 3010, 4010)


def mark_text(s):
    """Gives every text item of the content a form that is no number."""
    def q(t):
        return "q_" + t
    for k in ("oname", "org", "sname", "mname"):
        s[k] = q(s[k])
    for k in ("xname", "vname", "aname", "scom", "ncom", "amissc"):
        if k in s:
            s[k] = [q(t) for t in s[k]]
    if s["ffi"] == 2160:
        for m in s["marks"]:
            m["x"] = q(m["x"])
            m["auxc"] = [q(t) for t in m["auxc"]]
    return s


def faults(rng, s, lay):
    """Yields (kind, text of the file)."""
    head = [("top", "%d %d" % (0, s["ffi"]))] + render.header_lines(s, lay)
    head[0] = ("top", "%d %d" % (len(head), s["ffi"]))
    data, ends = [], set()
    for kind, lines in render.data_records(s, lay):
        if kind in ("x+a", "x") or (kind == "x+v" and s["ffi"] == 1001):
            ends.add(len(data))
        data += [(kind, line) for line in lines]
    ends.add(len(data))

    hl, dl = [t for _, t in head], [t for _, t in data]

    def text(h, d):
        return "\n".join(h + d) + "\n"

    yield None, text(hl, dl)
    yield "empty file", ""
    for k in range(1, len(hl)):
        yield "header stops early", text(hl[:k], [])
    for k, (kind, line) in enumerate(head):
        if kind not in NUMERIC_HEADER:
            continue
        items = line.split()

        def replaced(new):
            return text(hl[:k] + [new] + hl[k + 1:], dl)
        yield "header item missing", replaced(" ".join(items[:-1]))
        if len(items) > 1:
            j = rng.randrange(len(items))
            yield "header item missing", replaced(" ".join(items[:j] + items[j + 1:]))
            yield "header stops early", text(hl[:k] + [" ".join(items[:-1])], [])
        yield "header item surplus", replaced(" ".join(items + [rng.choice(("0", "1", "7", "1.5", "-3"))]))
        yield "header line missing", text(hl[:k] + hl[k + 1:], dl)
        for j in range(len(items)):
            if kind in WHOLE:
                yield "header count not whole", replaced(" ".join(items[:j] + [items[j] + rng.choice((".5", ".25", ".75", ".9"))] + items[j + 1:]))
            if kind in COUNTS or (kind, j) == ("top", 0):
                yield "header count negative", replaced(" ".join(items[:j] + ["-%d" % (int(items[j]) or 1)] + items[j + 1:]))
            yield "header text for a number", replaced(" ".join(items[:j] + [rng.choice(TEXT_FOR_NUMBER)] + items[j + 1:]))

    if not data:
        return
    where = list(range(len(data)))
    if len(where) > 40:
        where = sorted(set(where[:12] + where[-12:] + rng.sample(where, 16)))
    for k in where:
        kind, line = data[k]
        items = line.split()
        if k not in ends:
            yield "data stop in a record", text(hl, dl[:k])
        if k > 0:
            yield "blank line between data lines", text(hl, dl[:k] + [rng.choice(("", " ", "\t", "    "))] + dl[k:])
        if kind in TEXT_DATA:
            continue
        if len(items) > 1:
            yield "data stop in a line", text(hl, dl[:k] + [" ".join(items[:rng.randint(1, len(items) - 1)])])
            yield "data stop in a line", text(hl, dl[:k] + [" ".join(items[:-1])])
        for j in (range(len(items)) if len(items) < 8 else rng.sample(range(len(items)), 7)):
            yield "data text for a number", text(hl, dl[:k] + [" ".join(items[:j] + [rng.choice(TEXT_FOR_NUMBER)] + items[j + 1:])] + dl[k + 1:])
        first = k in ends if kind == "x+a" else kind == "a" and data[k - 1][0] == "x"
        if first and s["ffi"] in (2110, 2160, 2310):
            j = 0 if kind == "a" else 1
            if j < len(items) and float(items[j]) != s["amiss"][0]:
                n = int(float(items[j]))
                yield "data count not whole", text(hl, dl[:k] + [" ".join(items[:j] + ["%d.5" % n] + items[j + 1:])] + dl[k + 1:])
                if -(n or 1) != s["amiss"][0]:
                    yield "data count negative", text(hl, dl[:k] + [" ".join(items[:j] + ["-%d" % (n or 1)] + items[j + 1:])] + dl[k + 1:])
        if s["ffi"] in FIXED:
            j = rng.randrange(len(items))
            yield "data value surplus", text(hl, dl[:k] + [" ".join(items[:j] + ["4.25"] + items[j:])] + dl[k + 1:])
            if len(items) > 1:
                yield "data value missing", text(hl, dl[:k] + [" ".join(items[:j] + items[j + 1:])] + dl[k + 1:])
    if data[-1][0] not in TEXT_DATA:
        for extra in ("1.5", "0 0", "7 8 9 10 11"):
            yield "data value surplus at the end", text(hl, dl[:-1] + [dl[-1] + " " + extra])
    for extra in (["1.5"], ["0"]):
        yield "data line surplus at the end", text(hl, dl + extra)
    if s["ffi"] == 1001:
        n = len(s["vname"])
        yield "data line surplus at the end", text(hl, dl + [" ".join(["2"] * (n + 2))])
        yield "data line surplus at the end", text(hl, dl + [" ".join(["2"] * n)])


def read(path):
    f = nappy.openNAFile(path)
    f.readData()
    return f


def case(rng, i, ctx):
    ffi = model.FFIS[i % len(model.FFIS)]
    s = mark_text(model.Gen(rng, digits=4, big=False, huge=False).content(ffi, nmarks=rng.choice((1, 1, 2, 3, 4))))
    lay = render.Wild(rng, only=["wrap"]) if rng.random() < 0.25 else render.Layout()
    ctx.feature("ffi-%d" % ffi)
    kinds = set()
    for n, (kind, text) in enumerate(faults(rng, s, lay)):
        path = render.write(ctx.path("f%d.na" % n), text)
        f, exc = attempt(read, path)
        if kind is None:
            ctx.seen(text)
            ctx.sample = text
            if exc is not None:
                raise Violation("the file without fault is refused: %s" % exc, text=text)
            continue
        ctx.count("faults injected")
        ctx.count(kind)
        kinds.add(kind)
        if exc is None:
            raise Violation("FFI %d, %s: the file was accepted" % (ffi, kind), text=text,
                            contents=f.getNADict())
        ctx.count("errors raised")
    ctx.nontrivial = len(kinds) >= 5
