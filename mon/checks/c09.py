"""C09: header accessors and the name/units split agree with the file."""

import re

import nappy

from mon import model, render
from mon.checks import c01
from mon.core import Violation, must

CASES = {"quick": 15000, "thorough": 250000}
RULE = ("A file of a random content, whose names take every form (units, no units, several parentheses, blanks "
        "inside), is opened once to four times at the same time with or without a pattern or callback of the user's; "
        "every accessor is called for every index, before and after reading the data, and compared with the content "
        "and an independent split of the name. Non-trivial: at least three names; distinct by the text of the file.")
REQUIRED = ["ffi-%d" % f for f in model.FFIS] + ["callback", "pattern", "plain", "units", "no-units",
                                                  "several-parentheses"]

PATTERNS = (
    (re.compile(r"^()(\S+)\s*(.*)$"), lambda n: (n.split(None, 1)[1] if len(n.split(None, 1)) > 1 else "", n.split(None, 1)[0])),
    (re.compile(r"^(.*?)\s*\[(.*?)\](.*)$"), None),
    (re.compile(r"^(.*);\s*([^;]*)()$"), None),
)


def name_of(gen, rng):
    base = re.sub(r"[()]", "", gen.text(3)).strip() or "x"
    if rng.random() < 0.2:
        base = base.replace(" ", rng.choice(("  ", "   ", " \t ")))
    k = rng.random()
    unit = rng.choice(model.UNITS)
    if k < 0.35:
        t = "%s (%s)" % (base, unit)
    elif k < 0.6:
        t = base
    elif k < 0.7:
        t = "%s (%s) (%s)" % (base, rng.choice(("u", "sum", "a b")), unit)
    elif k < 0.76:
        t = "%s(%s)" % (base, unit)
    elif k < 0.82:
        t = "%s   (%s)" % (base, unit)
    elif k < 0.91:
        t = "%s [%s]" % (base, unit)
    else:
        t = "%s; %s" % (base, unit)
    return t if gen.ok_text(t) else name_of(gen, rng)


def split_default(name):
    """(name, units) by the documented form; None when it does not say."""
    if "(" not in name and ")" not in name:
        return name, None
    m = re.match(r"^([^()]*(?:\([^()]*\)[^()]*)*)\(([^()]+)\)$", name)
    return (m.group(1).strip(), m.group(2)) if m else None


def split_pattern(pattern, name):
    """As the documentation has it: the groups are the start of the name, the units, and the rest of the name."""
    m = pattern.match(name)
    if not m:
        return name.strip(), None
    return ("%s %s" % (m.group(1), m.group(3))).strip(), m.group(2)


def names_equal(a, b):
    return " ".join(a.split()) == " ".join(b.split()) if a is not None and b is not None else a is b


class Calls:
    """A user's callback which records what it is asked."""

    def __init__(self, tag):
        self.tag = tag
        self.asked = []

    def __call__(self, item):
        self.asked.append(item)
        return " %s:%s " % (self.tag, item[::-1]), "%s-units" % self.tag


def case(rng, i, ctx):
    s = c01.make(rng, ctx, ffi=model.FFIS[i % 9], nmarks=rng.choice((1, 2, 3)))
    gen = model.Gen(rng)
    for k in ("xname", "vname", "aname"):
        if k in s:
            s[k] = [name_of(gen, rng) for _ in s[k]]
    c01.features(ctx, s)
    ignored = ["extra line"] * rng.choice((0, 0, 0, 1, 3))
    text = render.render(s, render.Wild(rng) if rng.random() < 0.3 else None, ignored)
    ctx.seen(text)
    ctx.sample = text
    path = render.write(ctx.path(), text)
    nlhead = int(text.split("\n")[len(ignored)].split()[0])

    objs = []
    for k in range(rng.randint(1, 4)):
        kind = rng.choice(("plain", "plain", "callback", "pattern"))
        ctx.feature(kind)
        cb = Calls("c%d" % k) if kind == "callback" else None
        f = must("opening", nappy.openNAFile, path, ignore_header_lines=len(ignored), var_and_units_callback=cb)
        pattern = None
        if kind == "pattern":
            pattern = rng.choice(PATTERNS)[0]
            f.var_and_units_pattern = pattern
        objs.append((f, cb, pattern))
    rng.shuffle(objs)
    for f, cb, pattern in objs:
        judge(ctx, s, f, cb, pattern, nlhead, len(ignored))
    for f, cb, pattern in objs:
        if rng.random() < 0.5:
            must("readData", f.readData)
        judge(ctx, s, f, cb, pattern, nlhead, len(ignored))
    if rng.random() < 0.1:
        f = objs[0][0]
        for bad in ("(.*)", None, 5):
            try:
                f.var_and_units_pattern = bad
            except TypeError:
                pass
            else:
                raise Violation("%r is accepted as a pattern" % (bad,))
    ctx.nontrivial = len(s["vname"]) + len(s["xname"]) + len(s.get("aname", ())) >= 3


def judge(ctx, s, f, cb, pattern, nlhead, nignored):
    ffi = s["ffi"]

    def fail(msg):
        raise Violation("FFI %d: %s" % (ffi, msg))

    def eq(what, got, want):
        ctx.count("accessor calls")
        if not model.same(want, got):
            fail("%s gives %r, the file states %r" % (what, got, want))

    def name(what, got, stated):
        got_name, got_units = got
        if cb:
            want = ("%s:%s" % (cb.tag, stated[::-1]), "%s-units" % cb.tag)
            ok = (got_name, got_units) == (want[0].strip(), want[1])
        elif pattern:
            want = split_pattern(pattern, stated)
            ok = names_equal(got_name, want[0]) and got_units == want[1]
        else:
            want = split_default(stated)
            if want is None:
                return
            ctx.feature("units" if want[1] else "no-units")
            if stated.count("(") > 1:
                ctx.feature("several-parentheses")
            ok = (got_name, got_units) == want
        ctx.count("names split")
        if not ok:
            fail("%s splits %r into %r, expected %r" % (what, stated, (got_name, got_units), want))

    nv, naux = len(s["vname"]), len(s.get("aname", ()))
    variables = must("getVariables", f.getVariables)
    eq("the number of variables", len(variables), nv)
    for n in range(nv):
        for got in (must("getVariable", f.getVariable, n), variables[n]):
            name("getVariable(%d)" % n, got[:2], s["vname"][n])
            eq("getVariable(%d)" % n, list(got[2:]), [s["vmiss"][n], s["vscal"][n]])
        eq("getMissingValue(%d)" % n, f.getMissingValue(n), s["vmiss"][n])
        eq("getScaleFactor(%d)" % n, f.getScaleFactor(n), s["vscal"][n])
    axes = must("getIndependentVariables", f.getIndependentVariables)
    stated = s["xname"][::-1]
    eq("the number of independent variables", len(axes), len(stated))
    for n in range(len(stated)):
        name("getIndependentVariables()[%d]" % n, axes[n], stated[n])
        name("getIndependentVariable(%d)" % n, must("getIndependentVariable", f.getIndependentVariable, n), stated[n])
    aux = must("getAuxVariables", f.getAuxVariables)
    eq("the number of auxiliary variables", len(aux), naux)
    amiss = list(s.get("amiss", [])) + list(s.get("amissc", []))
    ascal = list(s.get("ascal", [])) + [None] * s.get("nauxc", 0)
    for n in range(naux):
        for got in (must("getAuxVariable", f.getAuxVariable, n), aux[n]):
            name("getAuxVariable(%d)" % n, got[:2], s["aname"][n])
            eq("getAuxVariable(%d)" % n, list(got[2:]), [amiss[n], ascal[n]])
        eq("getAuxMissingValue(%d)" % n, f.getAuxMissingValue(n), amiss[n])
        if ascal[n] is not None:
            eq("getAuxScaleFactor(%d)" % n, f.getAuxScaleFactor(n), ascal[n])
    if f.getNumHeaderLines() not in (nlhead, nlhead + nignored):
        fail("getNumHeaderLines gives %r, the file states %d" % (f.getNumHeaderLines(), nlhead))
    eq("getFFI", f.getFFI(), ffi)
    eq("getOriginator", f.getOriginator(), s["oname"])
    eq("getOrganisation", f.getOrganisation(), s["org"])
    eq("getOrg", f.getOrg(), s["org"])
    eq("getSource", f.getSource(), s["sname"])
    eq("getMission", f.getMission(), s["mname"])
    eq("getVolumes", list(f.getVolumes()), [s["ivol"], s["nvol"]])
    eq("getFileDates", [list(d) for d in f.getFileDates()], [s["date"], s["rdate"]])
    eq("getNormalComments", f.getNormalComments(), s["ncom"])
    eq("getSpecialComments", f.getSpecialComments(), s["scom"])
    for key, want in model.to_dict(s, header_only=True).items():
        if key in ("NX", "DX"):
            continue
        eq("[%r]" % key, f[key], want)
