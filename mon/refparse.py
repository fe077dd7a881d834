"""
A strict reader of the published NASA Ames layout, independent of nappy: it takes a file
apart line by line, insists on every declared count and gives a content (see model.py).
"""

from mon.model import GRID, NIV


class NotConformant(Exception):
    pass


def check(cond, msg):
    if not cond:
        raise NotConformant(msg)


class Lines:
    def __init__(self, text, delimiter=None):
        check(text == "" or text.endswith("\n"), "the last line is not ended")
        self.lines = text.split("\n")[:-1]
        self.pos = 0
        self.delimiter = delimiter

    def next(self, what):
        check(self.pos < len(self.lines), "the file ends where %s is expected" % what)
        self.pos += 1
        return self.lines[self.pos - 1]

    def text(self, what):
        return self.next(what)

    def split(self, line):
        return line.split()

    def line(self, what, n, conv):
        """n items on exactly one line."""
        t = self.next(what)
        items = self.split(t)
        check(len(items) == n, "%s: %d items expected in line %d: %r" % (what, n, self.pos, t[:200]))
        return self.convert(what, items, conv)

    def record(self, what, n, conv=float):
        """n items on one or more whole lines, none of them blank."""
        items = []
        while True:
            t = self.next(what)
            more = self.split(t)
            check(more or n == 0, "%s: blank line %d" % (what, self.pos))
            items += more
            check(len(items) <= n, "%s: %d items where %d are expected, up to line %d: %r"
                  % (what, len(items), n, self.pos, t[:200]))
            if len(items) == n:
                return self.convert(what, items, conv)

    def convert(self, what, items, conv):
        try:
            return [conv(t) for t in items]
        except ValueError as e:
            raise NotConformant("%s, line %d: %s" % (what, self.pos, e))


def parse(text):
    """Returns the content; raises NotConformant."""
    f = Lines(text)
    s = {}
    nlhead, ffi = f.line("NLHEAD FFI", 2, int)
    check(ffi in NIV, "unknown FFI %s" % ffi)
    s["ffi"] = ffi
    niv = NIV[ffi]
    for k in ("oname", "org", "sname", "mname"):
        s[k] = f.text(k.upper())
    s["ivol"], s["nvol"] = f.line("IVOL NVOL", 2, int)
    check(1 <= s["ivol"] <= s["nvol"], "volume %d of %d" % (s["ivol"], s["nvol"]))
    dates = f.line("DATE RDATE", 6, int)
    s["date"], s["rdate"] = dates[:3], dates[3:]
    s["dx"] = f.line("DX", 1 if ffi in (2160, 2310) else niv, float)
    if ffi == 1020:
        check(s["dx"][0] != 0, "DX is zero for FFI 1020")
        s["nvpm"], = f.line("NVPM", 1, int)
    if ffi in GRID:
        s["nx"] = f.line("NX", niv - 1, int)
        s["nxdef"] = f.line("NXDEF", niv - 1, int)
        for a, b in zip(s["nx"], s["nxdef"]):
            check(a >= 1 and 1 <= b <= a, "NXDEF %d with NX %d" % (b, a))
        s["xdef"] = [f.record("X", n) for n in s["nxdef"]]
    if ffi == 2160:
        s["lenx"], = f.line("LENX", 1, int)
    s["xname"] = [f.text("XNAME") for _ in range(niv)]
    nv, = f.line("NV", 1, int)
    check(nv >= 1, "NV is %d" % nv)
    s["vscal"] = f.record("VSCAL", nv)
    s["vmiss"] = f.record("VMISS", nv)
    s["vname"] = [f.text("VNAME") for _ in range(nv)]
    nreal = 0
    if ffi != 1001:
        naux, = f.line("NAUXV", 1, int)
        nauxc = 0
        if ffi == 2160:
            nauxc, = f.line("NAUXC", 1, int)
            s["nauxc"] = nauxc
        check(0 <= nauxc <= naux, "NAUXV %d, NAUXC %d" % (naux, nauxc))
        nreal = naux - nauxc
        check(nreal >= {2110: 1, 2160: 1, 2310: 3}.get(ffi, 0), "too few auxiliary variables")
        s["ascal"] = f.record("ASCAL", nreal) if nreal else []
        s["amiss"] = f.record("AMISS", nreal) if nreal else []
        if ffi == 2160:
            s["lena"] = f.record("LENA", nauxc, int) if nauxc else []
            s["amissc"] = [f.text("AMISS") for _ in range(nauxc)]
        s["aname"] = [f.text("ANAME") for _ in range(naux)]
    n, = f.line("NSCOML", 1, int)
    s["scom"] = [f.text("SCOM") for _ in range(n)]
    n, = f.line("NNCOML", 1, int)
    s["ncom"] = [f.text("NCOM") for _ in range(n)]
    check(f.pos == nlhead, "NLHEAD is %d but the header has %d lines" % (nlhead, f.pos))

    s["marks"] = []
    while f.pos < len(f.lines):
        mark = {}
        if ffi == 1001:
            rec = f.record("X V", 1 + nv)
            mark["x"], mark["v"] = rec[0], rec[1:]
        elif ffi == 2160:
            mark["x"] = f.text("X")
            check(mark["x"].strip() != "", "blank mark in line %d" % f.pos)
            mark["aux"] = f.record("A", nreal)
            mark["auxc"] = [f.text("A") for _ in range(s["nauxc"])]
        else:
            rec = f.record("X A", 1 + nreal)
            mark["x"], mark["aux"] = rec[0], rec[1:]
        if ffi == 1010:
            mark["v"] = f.record("V", nv)
        elif ffi == 1020:
            mark["v"] = [f.record("V", s["nvpm"]) for _ in range(nv)]
        elif ffi in GRID:
            slow = 1
            for n in s["nx"][1:]:
                slow *= n
            mark["v"] = []
            for _ in range(nv):
                flat = []
                for _ in range(slow):
                    flat += f.record("V", s["nx"][0])
                mark["v"].append(flat)
        elif ffi in (2110, 2160, 2310):
            n1 = mark["aux"][0]
            if n1 == s["amiss"][0]:
                n1 = 0
            check(n1 == int(n1) and n1 >= 0, "NX is %s" % n1)
            if ffi == 2310:
                mark["v"] = [f.record("V", int(n1)) if n1 else [] for _ in range(nv)]
            else:
                mark["v"] = [f.record("X V", 1 + nv) for _ in range(int(n1))]
        s["marks"].append(mark)
    return s




def strip_text(s):
    """The content with the blanks at the ends of its text items removed."""
    out = dict(s)
    for k in ("oname", "org", "sname", "mname"):
        out[k] = s[k].strip()
    for k in ("xname", "vname", "aname", "scom", "ncom", "amissc"):
        if k in s:
            out[k] = [t.strip() for t in s[k]]
    if s["ffi"] == 2160:
        out["marks"] = [dict(m, x=m["x"].strip(), auxc=[t.strip() for t in m["auxc"]]) for m in s["marks"]]
    return out
