"""Renders a content (see model.py) as a conformant NASA Ames file, in any of many layouts."""

from mon.model import GRID


class Layout:
    """The plain layout: one record per line, single blanks."""

    def __init__(self, rng=None):
        self.rng = rng

    def num(self, v):
        return str(v) if isinstance(v, int) else repr(v)

    def int_(self, v):
        return str(v)

    def line(self, items, header=True):
        """One line of items that must stay on one line."""
        return [" ".join(items)]

    def record(self, items, header=False):
        """A record of items that may continue on further lines."""
        return [" ".join(items)]

    def text(self, s):
        """A line of text (name)."""
        return [s]

    def comment(self, s):
        return [s]

    def item(self, s):
        """A line of text in the data section."""
        return [s]

    def end(self):
        return "\n"

    newline = "\n"


class Wild(Layout):
    """Random layouts. `only` limits which variations are used."""

    ALL = ("wrap", "blanks", "annotate", "notation", "end", "newline")

    def __init__(self, rng, only=None):
        Layout.__init__(self, rng)
        self.only = set(only if only is not None else
                        [k for k in self.ALL if rng.random() < 0.6] or [rng.choice(self.ALL)])
        self.newline = "\r\n" if "newline" in self.only and rng.random() < 0.3 else "\n"
        self.tabs = rng.random() < 0.5
        self.rate = rng.choice((0.1, 0.4, 0.9))

    def sep(self):
        if "blanks" not in self.only:
            return " "
        if self.tabs and self.rng.random() < 0.3:
            return self.rng.choice(("\t", " \t", "\t\t", "\t "))
        return " " * self.rng.choice((1, 1, 2, 3, 7))

    def edge(self):
        if "blanks" not in self.only or self.rng.random() < 0.5:
            return ""
        return self.sep()

    def note(self):
        if "annotate" not in self.only or self.rng.random() > self.rate:
            return ""
        return self.rng.choice(("  {NLHEAD  FFI}", " {note}", "\t{X(i,m,1), i=1,NX(1)}", "   { 12 13 }", " {1}",
                                "     {ONAME ...}", " {it's \"quoted\"}", " {}", " {10^-9 (m^2)}", "{none}"))

    def num(self, v):
        r = self.rng
        if "notation" not in self.only:
            return Layout.num(self, v)
        f = float(v)
        forms = [repr(f)]
        forms.append("%.17e" % f)
        forms.append(("%.16E" % f))
        forms.append(("%r" % f).upper())
        if f == int(f) and abs(f) < 1e15:
            forms += ["%d" % f, "%d." % f, "%d.000" % f, "%de0" % f, "%dE+00" % f]
        if repr(f)[0] != "-":
            forms += ["+" + repr(f), "0" + repr(f), "00" + repr(f)]
        if 0 < abs(f) < 1 and "e" not in repr(f):
            forms.append(repr(f).replace("0.", ".", 1))
        if 1e-5 < abs(f) < 1e15:
            forms += ["%.12f" % f, "%.1e" % f, "%g" % f, "%.10g" % f]
        forms = [t for t in forms if float(t) == f]
        return r.choice(forms)

    def int_(self, v):
        if "notation" in self.only and v >= 0 and self.rng.random() < 0.3:
            return self.rng.choice(("0%d", "00%d", "+%d")) % v
        return str(v)

    def join(self, items):
        out = self.edge()
        for i, t in enumerate(items):
            out += (self.sep() if i else "") + t
        return out + self.edge()

    def line(self, items, header=True):
        return [self.join(items) + (self.note() if header else "")]

    def record(self, items, header=False):
        if "wrap" not in self.only or len(items) < 2 or self.rng.random() > max(0.3, self.rate):
            lines = [self.join(items)]
        else:
            lines, i = [], 0
            per = self.rng.choice((1, 2, 3, 5, 0))
            while i < len(items):
                k = per or self.rng.randint(1, 6)
                lines.append(self.join(items[i:i + k]))
                i += k
        if header:
            lines[-1] += self.note()
        return lines

    def text(self, s):
        return [self.edge() + s + self.edge() + (self.note() if s else "")]

    def comment(self, s):
        return [self.edge() + s + self.edge()]

    def item(self, s):
        return [self.edge() + s + self.edge()]

    def end(self):
        if "end" not in self.only:
            return self.newline
        blank = ["", " ", "\t", "   "]
        if self.rng.random() < 0.3:
            return ""
        return self.newline + "".join(self.rng.choice(blank) + self.newline for _ in range(self.rng.randint(0, 4)))


def header_lines(s, lay):
    """The header's lines after the first. Each is (kind, text)."""
    ffi = s["ffi"]
    out = []

    def add(kind, lines):
        out.extend((kind, line) for line in lines)

    num, int_ = lay.num, lay.int_
    for k in ("oname", "org", "sname", "mname"):
        add(k, lay.text(s[k]))
    add("ivol", lay.line([int_(s["ivol"]), int_(s["nvol"])]))
    add("date", lay.line([int_(v) for v in s["date"] + s["rdate"]]))
    add("dx", lay.line([num(v) for v in s["dx"]]))
    if ffi == 1020:
        add("nvpm", lay.line([int_(s["nvpm"])]))
    if ffi in GRID:
        add("nx", lay.line([int_(v) for v in s["nx"]]))
        add("nxdef", lay.line([int_(v) for v in s["nxdef"]]))
        for x in s["xdef"]:
            add("xdef", lay.record([num(v) for v in x], header=True))
    if ffi == 2160:
        add("lenx", lay.line([int_(s["lenx"])]))
    for v in s["xname"]:
        add("xname", lay.text(v))
    add("nv", lay.line([int_(len(s["vname"]))]))
    add("vscal", lay.record([num(v) for v in s["vscal"]], header=True))
    add("vmiss", lay.record([num(v) for v in s["vmiss"]], header=True))
    for v in s["vname"]:
        add("vname", lay.text(v))
    if ffi != 1001:
        add("nauxv", lay.line([int_(len(s["aname"]))]))
        if ffi == 2160:
            add("nauxc", lay.line([int_(s["nauxc"])]))
        if s["ascal"]:
            add("ascal", lay.record([num(v) for v in s["ascal"]], header=True))
            add("amiss", lay.record([num(v) for v in s["amiss"]], header=True))
        if ffi == 2160 and s["nauxc"]:
            add("lena", lay.record([int_(v) for v in s["lena"]], header=True))
            for v in s["amissc"]:
                add("amissc", lay.line([v]))
        for v in s["aname"]:
            add("aname", lay.text(v))
    add("nscoml", lay.line([int_(len(s["scom"]))]))
    for v in s["scom"]:
        add("scom", lay.comment(v))
    add("nncoml", lay.line([int_(len(s["ncom"]))]))
    for v in s["ncom"]:
        add("ncom", lay.comment(v))
    return out


def data_records(s, lay):
    """The data section: a list of (kind, lines), one item per record."""
    ffi, num, out = s["ffi"], lay.num, []

    def rec(kind, items):
        out.append((kind, lay.record([num(v) for v in items])))

    for mark in s["marks"]:
        if ffi == 1001:
            rec("x+v", [mark["x"]] + mark["v"])
        elif ffi == 1010:
            rec("x+a", [mark["x"]] + mark["aux"])
            rec("v", mark["v"])
        elif ffi == 1020 or ffi == 2310:
            rec("x+a", [mark["x"]] + mark["aux"])
            if ffi == 1020 or mark["v"][0]:
                for v in mark["v"]:
                    rec("v", v)
        elif ffi in GRID:
            rec("x+a", [mark["x"]] + mark["aux"])
            fast = s["nx"][0]
            for v in mark["v"]:
                for i in range(0, len(v), fast):
                    rec("v", v[i:i + fast])
        elif ffi == 2110:
            rec("x+a", [mark["x"]] + mark["aux"])
            for row in mark["v"]:
                rec("row", row)
        elif ffi == 2160:
            out.append(("x", lay.item(mark["x"])))
            rec("a", mark["aux"])
            for v in mark["auxc"]:
                out.append(("ac", lay.item(v)))
            for row in mark["v"]:
                rec("row", row)
    return out


def render(s, lay=None, ignored=()):
    """The text of the file."""
    lay = lay or Layout()
    head = header_lines(s, lay)
    first = lay.line([lay.int_(len(head) + 1), str(s["ffi"])])
    lines = list(ignored) + first + [t for _, t in head]
    for _, rec in data_records(s, lay):
        lines += rec
    # (an unfinished last line that is blank would be no line at all)
    return lay.newline.join(lines) + (lay.end() if s["marks"] else lay.newline)


def write(path, text):
    with open(path, "w", newline="") as fh:
        fh.write(text)
    return path
