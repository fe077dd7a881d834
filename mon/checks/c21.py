"""C21: the comparison tool reports equality exactly when contents are equal."""

import contextlib
import io
import os
import re
import shutil

import nappy.utils.compare_na as cna

from mon import model, render
from mon.core import Known, Violation, must

CASES = {"quick": 40000, "thorough": 200000}
RULE = ("A random file of any format and an altered copy of it: alterations whose effect is known by construction, either "
        "none (other notation of the same numbers, other delimiters, other blanks between numbers) or some (one item changed, "
        "at any place, by a known relative amount; an item or line added, dropped or moved). The verdict and the printed "
        "reports of compNAFiles, compareNA and the command are compared with what was done, in both orders. "
        "So is the verdict of compareNA for directories that hold the pair of files among other files and folders.")
REQUIRED = ["same", "differs", "header only", "body only", "both", "strict", "approx", "delimiter", "notation", "one value",
            "one text", "case of a letter", "blanks in a text", "one character dropped", "line added", "line dropped", "item added", "item dropped", "lines swapped", "within 1%",
            "beyond 1%", "last line", "last item", "sign", "command", "reordered items", "header verdict lost",
            "directories", "directories that differ", "file in one directory only", "other files in the directories",
            "text files that differ", "excluded files", "folder in one directory only"]
ASSUMPTIONS = ["file names are not among those the tool excludes (CSV, svn, hidden, *~, *.pyc)",
               "no NaN in the files; numbers compared approximately are zero or above 1e-6 in size"]

NUMBER = re.compile(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")


def numeric(line):
    items = line.split()
    return bool(items) and all(NUMBER.match(x) for x in items)


def notations(rng, x):
    """Other ways to write the same number."""
    v = float(x)
    for _ in range(6):
        t = rng.choice(("%r" % v, "%.17e" % v, "%.17g" % v, "+%s" % x if x[0] not in "+-" else x,
                        x + "0" if "." in x and "e" not in x.lower() else x,
                        x + ".0" if re.match(r"^[+-]?\d+$", x) else x, x.upper(), "%.20g" % v))
        if float(t) == v and NUMBER.match(t):
            return t
    return x


def changed(rng, x, ctx, approx):
    """(another number, whether it is within 1%)."""
    v = float(x)
    k = rng.random()
    if v == 0 or abs(v) < 1e-6 or abs(v) > 1e300:
        return repr(v + rng.choice((1.0, -2.5)) if abs(v) < 1e-6 else v / 2), False
    if k < 0.2:
        ctx.feature("sign")
        return repr(-v), False
    if k < 0.5:
        w = v * (1 + rng.choice((1, -1)) * rng.uniform(0.0005, 0.0098))
        if approx:
            ctx.feature("within 1%")
        return repr(w), w == v or True
    w = v * (1 + rng.choice((1, -1)) * rng.choice((0.0103, 0.02, 0.1, 0.5, 1.5, 1e3)))
    if approx:
        ctx.feature("beyond 1%")
    return repr(w), False


def equal_items(a, b):
    """Whether they may count as equal, by value or approximately."""
    a, b = a.split(), b.split()
    if len(a) != len(b):
        # (an item of one line may hold what are several in the other)
        return False
    for x, y in zip(a, b):
        try:
            x, y = float(x), float(y)
            if x != y and abs(x - y) > 0.02 * max(abs(x), abs(y)):
                return False
        except ValueError:
            if x != y:
                return False
    return True


def case(rng, i, ctx):
    g = model.Gen(rng, digits=rng.choice((3, 6)), big=False)
    s = g.content(rng.choice(model.FFIS))
    text = render.render(s, render.Layout())
    lines = text.rstrip("\n").split("\n")
    nhead = int(lines[0].split()[0])
    a = {"header": lines[:nhead], "body": lines[nhead:]}
    opts = {"number_clever": rng.random() >= 0.25, "approx_equal": rng.random() < 0.3}
    d1, d2 = None, None
    b = {k: list(v) for k, v in a.items()}
    section = rng.choice(("header", "body"))
    strict = not opts["number_clever"]
    approx = opts["approx_equal"] and not strict
    ctx.feature("strict" if strict else "approx" if approx else "by value")

    # changes that are none: notation
    if rng.random() < 0.5 and not strict:
        for sec in b:
            for n, line in enumerate(b[sec]):
                if numeric(line) and not (sec == "header" and n == 0) and rng.random() < 0.5:
                    b[sec][n] = "  ".join(notations(rng, x) for x in line.split())
        ctx.feature("notation")
    elif rng.random() < 0.5:
        for sec in b:
            for n, line in enumerate(b[sec]):
                if numeric(line) and rng.random() < 0.5:
                    b[sec][n] = rng.choice(("", "  ", "\t")) + rng.choice((" ", "   ", "\t")).join(line.split())

    # one change that is one
    same = {"header": True, "body": True}
    k = rng.choice(("none", "value", "value", "value", "text", "add line", "drop line", "add item", "drop item", "swap",
                    "reorder"))
    dst = b[section]
    numbers = [n for n, x in enumerate(dst) if numeric(x) and not (section == "header" and n == 0)]
    texts = [n for n, x in enumerate(dst) if re.search(r"[A-Za-z]", x)]
    if k == "value" and numbers:
        n = rng.choice((rng.choice(numbers), numbers[-1]))
        items = dst[n].split()
        m = rng.choice((rng.randrange(len(items)), len(items) - 1))
        if n == len(dst) - 1:
            ctx.feature("last line")
        if m == len(items) - 1:
            ctx.feature("last item")
        new, near = changed(rng, items[m], ctx, approx)
        if float(new) == float(items[m]):
            return
        items[m] = new
        dst[n] = " ".join(items)
        same[section] = near and approx
        ctx.feature("one value")
    elif k == "text" and texts:
        n = rng.choice(texts)
        pos = [m.start() for m in re.finditer("[A-Za-z]", dst[n])]
        p = rng.choice(pos)
        how = rng.random()
        if how < 0.5:
            new = dst[n][:p] + ("q" if dst[n][p] not in "qQ" else "z") + dst[n][p + 1:]
        elif how < 0.75:
            ctx.feature("case of a letter")
            new = dst[n][:p] + dst[n][p].swapcase() + dst[n][p + 1:]
        else:
            p = rng.choice([p for p, c in enumerate(dst[n]) if not c.isspace()])
            ctx.feature("one character dropped")
            new = dst[n][:p] + dst[n][p + 1:]
        if numeric(new) or numeric(dst[n]) or equal_items(new, dst[n]):
            return
        dst[n] = new
        same[section] = False
        ctx.feature("one text")
    elif k == "add line" and section == "body":
        dst.insert(rng.choice((rng.randint(0, len(dst)), len(dst))), rng.choice(("1 2 3", "7", "12345.678 9")))
        same[section] = False
        ctx.feature("line added")
    elif k == "drop line" and section == "body" and len(dst) > 1:
        del dst[rng.choice((rng.randrange(len(dst)), len(dst) - 1))]
        same[section] = False
        ctx.feature("line dropped")
    elif k in ("add line", "drop line") and section == "header":
        if k == "add line":
            dst.append("an extra line")
        else:
            dst.pop()
        dst[0] = "%d %s" % (len(dst), dst[0].split()[1])
        same[section] = False
        ctx.feature("line added" if k == "add line" else "line dropped")
    elif k == "add item" and numbers:
        n = rng.choice(numbers)
        dst[n] += " 5"
        same[section] = False
        ctx.feature("item added")
    elif k == "drop item" and numbers:
        n = rng.choice(numbers)
        items = dst[n].split()
        if len(items) < 2:
            return
        dst[n] = " ".join(items[:-1] if rng.random() < 0.5 else items[1:])
        same[section] = False
        ctx.feature("item dropped")
    elif k == "reorder" and numbers:
        n = rng.choice(numbers)
        items = dst[n].split()
        if len(items) < 2:
            return
        x, y = float(items[0]), float(items[-1])
        if x == y or (x and y and 0.97 < x / y < 1.03) or max(abs(x), abs(y)) < 1e-6:
            return
        items[0], items[-1] = items[-1], items[0]
        dst[n] = " ".join(items)
        same[section] = False
        ctx.feature("reordered items")
    elif k == "swap" and len(dst) > 2:
        n = rng.randrange(1, len(dst) - 1)
        x, y = dst[n].split(), dst[n + 1].split()
        if len(x) == len(y):
            return
        dst[n], dst[n + 1] = dst[n + 1], dst[n]
        same[section] = False
        ctx.feature("lines swapped")
    elif k != "none":
        return

    # delimiters, of lines of numbers only
    def delimit(part, d):
        return {sec: [d.join(x.split()) if numeric(x) else x for x in v] for sec, v in part.items()}

    if rng.random() < (0.6 if k == "none" else 0.3):
        plain = [x for sec in (a, b) for v in sec.values() for x in v if not numeric(x)]
        d = rng.choice((",", ";", "|"))
        # text lines have to be the same but where they were changed
        if not any(d in x for x in plain):
            b, d2 = delimit(b, d), d
            if rng.random() < 0.5:
                d = rng.choice((",", ":"))
                if not any(d in x for x in plain):
                    a, d1 = delimit(a, d), d
                    gaps = [n for n, x in enumerate(b[section]) if re.search(r"[A-Za-z] [A-Za-z]", x)]
                    if k == "none" and gaps and rng.random() < 0.5:
                        n = rng.choice(gaps)
                        b[section][n] = re.sub(r"([A-Za-z]) ([A-Za-z])", r"\1  \2", b[section][n], count=1)
                        same[section] = False
                        ctx.feature("blanks in a text")
            ctx.feature("delimiter")
    p1, p2 = ctx.path("one.na"), ctx.path("two.na")
    for p, part in ((p1, a), (p2, b)):
        with open(p, "w") as fh:
            fh.write("\n".join(part["header"] + part["body"]) + "\n")
    header, body = rng.choice(((True, True), (True, False), (False, True)))
    ctx.feature("both" if header and body else "header only" if header else "body only")
    if rng.random() < 0.5:
        p1, p2, d1, d2 = p2, p1, d2, d1
    ctx.seen(repr((a, b, opts, header, body, d1, d2)))
    ctx.sample = repr((k, section, opts, header, body, d1, d2)) + "\n" + "\n".join(b["header"] + b["body"])
    want = (same["header"] or not header) and (same["body"] or not body)
    how = rng.choice(("files", "files", "compareNA", "command"))
    out = io.StringIO()
    if rng.random() < 0.12:
        return directories(rng, ctx, p1, p2, dict(opts, header=header, body=body, delimiter_1=d1, delimiter_2=d2), want,
                           header and body and not same["header"] and same["body"])
    kw = dict(opts, header=header, body=body, delimiter_1=d1, delimiter_2=d2)
    with contextlib.redirect_stdout(out):
        if how == "command":
            args = []
            if not body:
                args.append(rng.choice(("-h", "--header-only")))
            if not header:
                args.append(rng.choice(("-b", "--body-only")))
            if strict:
                args.append(rng.choice(("-n", "--number-strict")))
            if opts["approx_equal"]:
                args.append(rng.choice(("-a", "--approx-equal")))
            for n, d in ((1, d1), (2, d2)):
                if d:
                    args += rng.choice((["-%d" % n, d], ["--delimiter-%d=%s" % (n, d)]))
            ctx.feature("command")
            must("the command with %r" % args, cna.main, args + [p1, p2])
            got = None
        else:
            got = must("%s(%r)" % (how, kw), cna.compNAFiles if how == "files" else cna.compareNA, p1, p2, **kw)
    printed = out.getvalue()
    for sec, on, sentence in (("header", header, "HEADERS ARE IDENTICAL."), ("body", body, "BODIES ARE IDENTICAL.")):
        told = sentence in printed.split("\n")
        if told != (on and same[sec]):
            raise Violation("%s %s (%s, %r): the %ss are reported %s" %
                            (k, section, how, kw, sec, "identical" if told else "different"), printed=printed[-1500:])
        lengths = len(a[sec]) == len(b[sec])
        if on and not same[sec] and lengths and "Line " not in printed:
            raise Violation("%s %s: no differing line is reported" % (k, section), printed=printed[-1500:])
        ctx.count("sections judged")
    ctx.feature("same" if want else "differs")
    if got is not None or how != "command":
        if got is not want and bool(got) == want and isinstance(got, bool) is False:
            raise Violation("the verdict is %r" % (got,))
        if bool(got) != want:
            if got is True and header and body and not same["header"] and same["body"]:
                ctx.feature("header verdict lost")
                raise Known("header-verdict-lost", "compNAFiles of files with other headers and the same body gives True")
            raise Violation("%s %s (%s, %r): the verdict is %r, expected %r" % (k, section, how, kw, got, want),
                            printed=printed[-1500:])
        ctx.count("verdicts judged")


def directories(rng, ctx, p1, p2, kw, want, lost):
    """The same pair of files, among others, in two directories."""
    tops = [os.path.join(ctx.dir, d) for d in rng.choice((("a", "b"), ("old", "new"), ("b", "a.d")))]
    under = rng.choice(("", "", "sub", os.path.join("sub", "sub")))
    name = rng.choice(("pair.na", "pair", "16.na", "pair.csv"))
    for top, p in zip(tops, (p1, p2)):
        os.makedirs(os.path.join(top, under))
        shutil.move(p, os.path.join(top, under, name))

    def put(sides, f, text):
        for k in sides:
            with open(os.path.join(tops[k], f), "w") as fh:
                fh.write(text)
    reasons = []
    if not want:
        reasons.append("pair")
    g = model.Gen(rng, digits=3, big=False)
    for n in range(rng.randint(0, 3)):
        # (before and after the pair in the order of names)
        f = rng.choice(("a%d.na", "z%d.na")) % n
        text = render.render(g.content(rng.choice((1001, 2010))), render.Layout())
        if kw["delimiter_1"] or kw["delimiter_2"]:
            continue
        if rng.random() < 0.25:
            put(rng.choice(((0,), (1,))), f, text)
            reasons.append("missing")
            ctx.feature("file in one directory only")
        else:
            put((0, 1), f, text)
            ctx.feature("other files in the directories")
    if rng.random() < 0.2:
        f = rng.choice(("notes.txt", "README", "notes.dat"))
        text = rng.choice(("some notes\nline 2\n", "2 lines\nhere\n"))
        put((0, 1), f, text)
        if rng.random() < 0.5:
            put((1,), f, text + rng.choice(("more\n", "more")))
            reasons.append("text file")
            ctx.feature("text files that differ")
    if rng.random() < 0.3:
        f = rng.choice((".hidden", "kept.na~", "x.pyc", "myCSVfile.na"))
        put((0,), f, "1\n")
        if rng.random() < 0.5:
            put((1,), f, "2\n")
        ctx.feature("excluded files")
    if rng.random() < 0.1:
        k = rng.randrange(2)
        os.mkdir(os.path.join(tops[k], "empty"))
        if rng.random() < 0.5:
            put((1 - k,), "empty", "a file\n")
        reasons.append("missing")
        ctx.feature("folder in one directory only")
    ctx.feature("directories")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        got = must("compareNA of directories (%r)" % kw, cna.compareNA, *tops, **kw)
    printed = out.getvalue()
    if bool(got) != (not reasons):
        if got is True and reasons == ["pair"] and lost:
            raise Known("header-verdict-lost", "compNAFiles of files with other headers and the same body gives True")
        raise Violation("directories that differ in %r (%r): the verdict is %r" % (reasons, kw, got), printed=printed[-1500:])
    if "missing" in reasons and "WARNING" not in printed:
        raise Violation("an item of one directory only is not reported", printed=printed[-1500:])
    if reasons:
        ctx.feature("directories that differ")
    ctx.count("directories compared")


def header_verdict_lost(base):
    a = "16 1001\no\nr\ns\nm\n1 1\n2001 1 1 2002 1 1\n0\nx\n1\n1\n-99\n%s\n0\n1\n%s\n1 2\n3 4\n"
    paths = []
    for n, (v, c) in enumerate((("temp", "note"), ("ozone", "note"))):
        paths.append(os.path.join(base, "kf%d.na" % n))
        with open(paths[-1], "w") as fh:
            fh.write(a % (v, c))
    with contextlib.redirect_stdout(io.StringIO()):
        return cna.compNAFiles(*paths) is True


REPRODUCERS = {"header-verdict-lost": header_verdict_lost}
