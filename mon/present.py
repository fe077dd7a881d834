"""
What a written file looks like, line by line: the kind of each line and its items, for
a content and presentation options. Independent of nappy (labels come from the annotations file).
"""

import configparser
import os
import re

from mon.model import GRID
from mon.core import REPO

ANNOTATIONS = os.path.join(REPO, "nappy", "config", "annotations.ini")


def labels(path=ANNOTATIONS):
    conf = configparser.ConfigParser(interpolation=None)
    conf.optionxform = str
    conf.read(path)
    return dict(conf.items("annotations"))


def expected_lines(s):
    """
    [(label key, number within the label, "text"|"head"|"axis"|"data", items)] for every line of the file
    that states content s with one record per line. Items of "axis" and "data" are numbers that follow
    the float format; of "head" numbers that do not; of "text" a single string.
    """
    ffi, out = s["ffi"], []

    def text(key, items, numbered=True):
        for i, t in enumerate(items):
            out.append((key, i + 1 if numbered else None, "text", t))

    def head(key, items):
        out.append((key, None, "head", list(items)))

    head("NLHEAD_FFI", [None, ffi])
    for k in ("oname", "org", "sname", "mname"):
        text(k.upper(), [s[k]], False)
    head("IVOL_NVOL", [s["ivol"], s["nvol"]])
    head("DATE_RDATE", s["date"] + s["rdate"])
    head("DX", s["dx"])
    if ffi == 1020:
        head("NVPM", [s["nvpm"]])
    if ffi in GRID:
        head("NX", s["nx"])
        head("NXDEF", s["nxdef"])
        for x in s["xdef"]:
            out.append(("X", None, "axis", list(x)))
    if ffi == 2160:
        head("LENX", [s["lenx"]])
    text("XNAME", s["xname"])
    head("NV", [len(s["vname"])])
    head("VSCAL", s["vscal"])
    head("VMISS", s["vmiss"])
    text("VNAME", s["vname"])
    if ffi != 1001:
        head("NAUXV", [len(s["aname"])])
        if ffi == 2160:
            head("NAUXC", [s["nauxc"]])
        if s["ascal"]:
            head("ASCAL", s["ascal"])
            head("AMISS", s["amiss"])
        if ffi == 2160 and s["nauxc"]:
            head("LENA", s["lena"])
            text("AMISS", s["amissc"])
        text("ANAME", s["aname"])
    head("NSCOML", [len(s["scom"])])
    text("SCOM", s["scom"])
    head("NNCOML", [len(s["ncom"])])
    text("NCOM", s["ncom"])
    nhead = len(out)
    out[0][3][0] = nhead

    def data(items):
        out.append(("Data", None, "data", list(items)))

    for m in s["marks"]:
        if ffi == 1001:
            data([m["x"]] + m["v"])
        elif ffi == 1010:
            data([m["x"]] + m["aux"])
            data(m["v"])
        elif ffi in (1020, 2310):
            data([m["x"]] + m["aux"])
            if m["v"][0]:
                for v in m["v"]:
                    data(v)
        elif ffi in GRID:
            data([m["x"]] + m["aux"])
            for v in m["v"]:
                for i in range(0, len(v), s["nx"][0]):
                    data(v[i:i + s["nx"][0]])
        else:
            if ffi == 2160:
                out.append(("Data", None, "text", m["x"]))
                data(m["aux"])
                for t in m["auxc"]:
                    out.append(("Data", None, "text", t))
            else:
                data([m["x"]] + m["aux"])
            for row in m["v"]:
                data(row)
    return out, nhead


def split_items(line, delimiter):
    """The items of a line of numbers: separated by the delimiter or blanks."""
    d = delimiter.strip()
    if not d:
        return line.split()
    items = []
    for part in re.split(re.escape(d), line):
        items += part.split() or [""]
    return items


def judge(text, s, delimiter="    ", float_format="%.10g", annotation=False, no_header=False, label=None,
          skip=()):
    """
    None, or how the written text differs from what it has to be. `skip` names label keys of
    header lines whose items are not compared.
    """
    want, nhead = expected_lines(s)
    if no_header:
        want = want[nhead:]
    if text and not text.endswith("\n"):
        return "the last line is not ended"
    lines = text.split("\n")[:-1]
    if len(lines) != len(want):
        return "%d lines are expected but there are %d" % (len(want), len(lines))
    label = label or (labels() if annotation else None)
    for n, (line, (key, number, kind, items)) in enumerate(zip(lines, want)):
        where = "line %d (%s)" % (n + 1, key)
        rests = [line]
        if annotation:
            # the description, with or without the number of the line among those of its kind
            starts = ["%s%s" % (label[key], delimiter), "%s %s%s" % (label[key], number or 1, delimiter)]
            rests = [line[len(t):] for t in starts if line.startswith(t)]
            if not rests:
                return "%s does not start with its description: %r" % (where, line[:200])
        if key in skip:
            continue
        faults = [judge_line(rest, key, kind, items, delimiter, float_format) for rest in rests]
        if None not in faults:
            return "%s %s" % (where, faults[0])
    return None


def judge_line(line, key, kind, items, delimiter, float_format):
    """None, or what is wrong with a line (without its description)."""
    d = delimiter.strip()

    def ends(t):
        # an ending delimiter is no further item, unless it is a comma
        return (t, (t + delimiter).rstrip()) if d != "," else (t, )

    if kind == "text":
        if line == items or (key == "Data" and line.rstrip() in ends(items)):
            return None
        return "is %r, expected %r" % (line[:300], items)
    got = split_items(line, delimiter)
    if kind in ("axis", "data"):
        exp = [(float_format % v).strip() for v in items]
    else:
        exp = items
    if got and got[-1] == "" and d not in (",", "") and len(got) == len(exp) + 1:
        got = got[:-1]
    if len(got) != len(exp):
        return "has %d items, expected %d: %r" % (len(got), len(exp), line[:300])
    for a, b in zip(got, exp):
        if kind == "head":
            try:
                ok = float(a) == float(b)
            except ValueError:
                ok = False
        else:
            ok = a == b
        if not ok:
            return "holds %r where %r is expected: %r" % (a, b, line[:300])
    if kind == "data" and float_format == "%.10g" and line.rstrip() not in ends(delimiter.join(exp)):
        return "is %r, expected %r" % (line[:300], delimiter.join(exp)[:300])
    if kind == "data" and len(exp) > 1 and d and line.count(d) < len(exp) - 1:
        return "does not use the delimiter %r: %r" % (delimiter, line[:300])
    return None
