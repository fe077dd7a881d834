"""
Abstract contents of NASA Ames files, in the order in which the published format lists things
(fastest-varying axis first), independent of nappy.

A content ("spec") is a dictionary:

    ffi, oname, org, sname, mname, ivol, nvol, date, rdate
    dx        list of numbers: one per independent variable (only one for 2160 and 2310)
    nvpm      1020 only
    nx, nxdef, xdef    2010, 3010, 4010: one item per bounded axis, fastest first
    lenx      2160 only
    xname     one per independent variable, fastest first
    vscal, vmiss, vname
    ascal, amiss, aname (not 1001); for 2160 ascal and amiss hold the real-valued ones only
    nauxc, lena, amissc   2160 only
    scom, ncom
    marks     list of {x, aux, [auxc], v} (one per mark of the unbounded variable) with v as
        1001, 1010            [value of each variable]
        1020                  per variable, NVPM values
        2010, 3010, 4010      per variable, a flat list in the published record order
        2310                  per variable, NX(m) values
        2110, 2160            rows [x, v1, v2 ...]
"""

FFIS = (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)
GRID = (2010, 3010, 4010)
NIV = {1001: 1, 1010: 1, 1020: 1, 2010: 2, 2110: 2, 2160: 2, 2310: 2, 3010: 3, 4010: 4}

WORDS = ("ozone", "Temp", "wind", "NO2", "pressure", "alt", "O3-flux", "lat", "x_1", "Model", "run#7",
         "H2O", "100%", "CO2;", "a&b", "level", "qv", "rate", "u.v", "mix", "ratio", "at", "of", "=",
         "1996", "3.5", "%s", "%d", "A,B", "e-5", "*", "nan", "/data/x", "No.", "[i]", "<t>", "it's",
         "\"q\"", "=====", "tail\\", "$HOME", "~", "|", "@", "?", "!", "deg", "°C", "Zürich")
UNITS = ("m", "K", "ppmv", "hPa", "degrees_north", "m s-1", "%", "km", "1e-9", "mol/mol", "W m-2",
         "hours since 2001-01-01 00:00:00", "dimensionless", "part. cm**-3")


class Gen:
    """Random contents. `unique` numbers make every value identify its place."""

    def __init__(self, rng, digits=6, big=True, plain_text=False, quarters=False, odd=False, huge=True):
        self.rng = rng
        self.digits = digits
        self.big = big
        self.quarters = quarters      # axes hold multiples of 1/8, so that times are whole microseconds
        self.plain_text = plain_text
        self.odd = odd                # separators that end no line of a file
        self.huge = huge              # sometimes much more of something than usual
        self._n = 0
        self.recent = []
        self.remarks = []

    # -------------------------------------------------------------- scalars

    def number(self):
        """Any finite number with at most self.digits significant digits."""
        r = self.rng
        kind = r.random()
        nd = self.digits
        if kind < 0.25:
            return float(r.randint(-999, 999))
        if kind < 0.32:
            return 0.0
        if kind < 0.75:
            return float("%.*g" % (nd, r.uniform(-1000, 1000)))
        if kind < 0.85:
            return float("%.*g" % (nd, r.uniform(-1, 1)))
        if kind < 0.90 and self.big:
            return float("%se%d" % ("%.*f" % (nd - 1, r.uniform(-9.9, 9.9)), r.randint(-290, 290)))
        return float("%.*g" % (nd, r.uniform(-1, 1) * 10 ** r.randint(-8, 12)))

    def scale(self):
        r = self.rng
        k = r.random()
        if k < 0.4:
            return 1.0
        if k < 0.8:
            return r.choice((0.1, 0.01, 10.0, 100.0, 0.001, 1e-9, 2.0, 0.5, -1.0, 1000.0, 1e6, -0.1))
        if k < 0.86 and self.digits > 6:
            return r.choice((1 / 3.0, 200 / 7.0, 0.1234567890123456, 1.0000000001, -1e-7 / 3))
        return float("%.*g" % (min(4, self.digits), r.uniform(0.001, 50)))

    def missing(self):
        r = self.rng
        if r.random() < 0.75:
            return r.choice((9999.0, 999.99, -999.0, -9999.0, 99999.0, -1e20, 1e20, 999.0, 9.9e9, -99.9, 0.0,
                             99.0, 1e36, -8888.0))
        return self.number()

    def text(self, maxwords=6, empty=0.0):
        """Printable text with nothing at its ends that the format cannot hold."""
        r = self.rng
        if r.random() < empty:
            return ""
        while True:
            self._n += 1
            words = [r.choice(WORDS) for _ in range(r.randint(1, maxwords))]
            if r.random() < 0.7:
                words.insert(r.randint(0, len(words)), "t%d" % self._n)
            sep = " " if r.random() < 0.8 else r.choice(("  ", "_", ", ", "   ", "-"))
            s = sep.join(words)
            if r.random() < 0.02:
                s = s + " " + "long" * 60
            if r.random() < 0.02:
                s = s + ","
            if self.odd and r.random() < 0.05 and len(s) > 2:
                # characters that end a line elsewhere, not in a file
                k = r.randint(1, len(s) - 1)
                s = s[:k] + r.choice("\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") + s[k:]
            if self.ok_text(s):
                return s

    @staticmethod
    def ok_text(s):
        return (s == s.strip() and s != "" and not s.endswith("}") and s[0] not in "'\"" and s[-1] not in "'\""
                and not any(c in s for c in "\t\r\n"))

    def name(self):
        """The name of a variable or axis, with units more often than not."""
        r = self.rng
        while True:
            k = r.random()
            s = self.text(3)
            if k < 0.7:
                s = "%s (%s)" % (s, r.choice(UNITS))
            elif k < 0.75:
                s = "%s {%s} (%s)" % (s, r.choice(WORDS), r.choice(UNITS))
            if self.ok_text(s):
                # (quotes around a name are part of it; the units stay last)
                forms = ("'%s", '"%s') if "(" in s else ('"%s"', "'%s'", '%s"', "'%s", "%s''")
                return r.choice(forms).replace("%s", s) if r.random() < 0.04 else s

    def token(self, n=None):
        r = self.rng
        n = n or r.randint(1, 8)
        return "".join(r.choice("ABCDEFGHXYZabcxyz0123456789-_./#") for _ in range(n))

    def charitem(self):
        """A character-valued item of 2160: may contain blanks."""
        r = self.rng
        while True:
            s = " ".join(self.token() for _ in range(r.randint(1, 3)))
            if r.random() < 0.15:
                s = r.choice(("STN 1", "12 30 45", "1.5", "-99", "2004-05-06 07:08:09", "Geneva,", "a, b,,"))
            if self.ok_text(s.rstrip(",")):
                return r.choice(('"%s"', "'%s'", '%s"', "'%s")) % s if r.random() < 0.03 else s

    def axis(self, n, uniform=None, start=None):
        """n strictly monotonic values and their increment (0 if not uniform)."""
        r = self.rng
        if uniform is None:
            uniform = r.random() < 0.5
        sign = -1 if r.random() < 0.25 else 1
        if uniform:
            # tenths, computed exactly enough that start + i * dx prints the same as the list
            scale = r.choice((1, 1, 2, 4, 8)) if self.quarters or r.random() < 0.6 else r.choice((1, 10, 100))
            a, d = r.randint(-500, 500), r.randint(1, 40) * sign
            return [(a + i * d) / scale for i in range(n)], d / scale
        vals, x = [], float("%.4g" % r.uniform(-300, 300))
        for _ in range(n):
            vals.append(round(x * 4) / 4 if self.quarters else x)
            x = float("%.*g" % (self.digits, x + sign * r.uniform(0.5, 40)))
        return vals, 0.0

    # -------------------------------------------------------------- contents

    def size(self, lo, small, large):
        r = self.rng
        k = r.random()
        if k > 0.996 and self.huge:
            return r.randint(large, large * 10)
        if k < 0.12:
            return lo
        if k < 0.9:
            return r.randint(lo, small)
        return r.randint(lo, large)

    def value(self, miss):
        r = self.rng
        k = r.random()
        if k < 0.08:
            return miss
        if k < 0.16 and self.recent:
            return r.choice(self.recent)
        self.recent = self.recent[-5:] + [self.number()]
        return self.recent[-1]

    def content(self, ffi=None, nv=None, naux=None, nmarks=None, bounded_uniform=None, dx_zero=None):
        r = self.rng
        ffi = ffi or r.choice(FFIS)
        s = {"ffi": ffi}
        for k in ("oname", "org", "sname", "mname"):
            s[k] = self.text(5, empty=0.04)
        s["nvol"] = self.size(1, 3, 20)
        s["ivol"] = r.randint(1, s["nvol"])
        s["date"] = [r.randint(1900, 2030), r.randint(1, 12), r.randint(1, 28)]
        s["rdate"] = [r.randint(1950, 2030), r.randint(1, 12), r.randint(1, 28)]
        nv = nv if nv is not None else self.size(1, 4, 12)
        s["vscal"] = [self.scale() for _ in range(nv)]
        s["vmiss"] = [self.missing() for _ in range(nv)]
        s["vname"] = [self.name() for _ in range(nv)]
        s["scom"] = [self.comment() for _ in range(self.size(0, 3, 12))]
        s["ncom"] = [self.comment() for _ in range(self.size(0, 4, 15))]
        s["xname"] = [self.name() for _ in range(NIV[ffi])]

        # Auxiliary variables
        if ffi != 1001:
            least = {2110: 1, 2160: 1, 2310: 3}.get(ffi, 0)
            naux = naux if naux is not None else self.size(least, least + 3, least + 10)
            naux = max(naux, least)
            s["ascal"] = [self.scale() for _ in range(naux)]
            s["amiss"] = [self.missing() for _ in range(naux)]
            s["aname"] = [self.name() for _ in range(naux)]
            if least:
                s["ascal"][0] = 1.0
                s["amiss"][0] = float(r.choice((99, 999, -9, 9999, -99)))
            if ffi == 2310:
                s["ascal"][1:3] = [1.0, 1.0]
                for i in (1, 2):
                    s["amiss"][i] = 9999999.0
        if ffi == 2160:
            s["nauxc"] = self.size(0, 2, 5)
            s["lena"] = [r.randint(1, 30) for _ in range(s["nauxc"])]
            s["amissc"] = [r.choice(("z", "ZZZZ", "---", "999", "missing", "not known ", "no  value ")) + self.token(2)
                           for _ in range(s["nauxc"])]
            s["aname"] += [self.name() for _ in range(s["nauxc"])]
            s["lenx"] = r.randint(1, 40)

        # Axes
        nm = nmarks if nmarks is not None else self.size(1, 6, 30)
        s["marks"] = []
        if ffi == 1020:
            s["nvpm"] = r.choice((1, 2, 4)) if self.quarters else self.size(1, 5, 12)
            x, dx = self.axis(nm, uniform=True)
            s["dx"] = [dx / s["nvpm"] if (dx / s["nvpm"]) * s["nvpm"] == dx else dx]
            x = [x[0] + i * (s["dx"][0] * s["nvpm"]) for i in range(nm)]
        elif ffi == 2160:
            x = [self.charitem() for _ in range(nm)]
            s["dx"] = [0.0]
        else:
            x, dx = self.axis(nm, uniform=False if dx_zero else None)
            s["dx"] = [dx]
        if ffi in GRID:
            s["nx"], s["nxdef"], s["xdef"] = [], [], []
            dxs = []
            for _ in range(NIV[ffi] - 1):
                if ffi == 2010:
                    n = self.size(1, 6, 40)
                else:
                    n = self.size(1, 4, 8)
                vals, d = self.axis(n, uniform=bounded_uniform)
                if d and n > 1 and r.random() < 0.75:
                    # an implicitly defined axis: the first value(s) and the increment
                    nd = 1 if r.random() < 0.8 else r.randint(1, n - 1)
                    vals = vals[:nd]
                s["nx"].append(n)
                s["nxdef"].append(len(vals))
                s["xdef"].append(vals)
                dxs.append(d)
            s["dx"] = dxs + s["dx"]
        rowdx = 0.0
        if ffi == 2110:
            rowdx = self.axis(2, uniform=True)[1] if r.random() < 0.3 else 0.0
            s["dx"] = [rowdx] + s["dx"]
        elif ffi == 2160:
            rowdx = self.axis(2, uniform=True)[1] if r.random() < 0.3 else 0.0
            s["dx"] = [rowdx]

        # The rows of different marks often stand at the same levels
        levels = self.axis(12, uniform=False)[0] if ffi in (2110, 2160) and not rowdx and r.random() < 0.3 else None

        # Data (long files take nappy a time that grows with the square of their length)
        if ffi in GRID:
            size = 1
            for n in s["nx"]:
                size *= n
            nm = min(nm, max(1, 20000 // (size * nv)))
        for m in range(nm):
            mark = {"x": x[m]}
            if ffi != 1001:
                mark["aux"] = [self.value(a) for a in s["amiss"]]
            if ffi in (1001, 1010):
                mark["v"] = [self.value(s["vmiss"][n]) for n in range(nv)]
            elif ffi == 1020:
                mark["v"] = [[self.value(s["vmiss"][n]) for _ in range(s["nvpm"])] for n in range(nv)]
            elif ffi in GRID:
                size = 1
                for n in s["nx"]:
                    size *= n
                mark["v"] = [[self.value(s["vmiss"][n]) for _ in range(size)] for n in range(nv)]
            else:
                n1 = self.size(0, 4, 12)
                if n1 == s["amiss"][0]:
                    n1 += 1
                mark["aux"][0] = float(n1)
                if n1 == 0 and r.random() < 0.3:
                    mark["aux"][0] = s["amiss"][0]
                if ffi == 2310:
                    vals, d = self.axis(max(n1, 1), uniform=True)
                    mark["aux"][1], mark["aux"][2] = vals[0], d
                    mark["v"] = [[self.value(s["vmiss"][n]) for _ in range(n1)] for n in range(nv)]
                else:
                    start = self.axis(1)[0][0]
                    if levels and n1 <= 12:
                        vals = levels[:n1] if r.random() < 0.8 else levels[12 - n1:]
                    else:
                        vals = [start + i * rowdx for i in range(n1)] if rowdx else \
                            self.axis(n1, uniform=False)[0]
                    mark["v"] = [[vals[i]] + [self.value(s["vmiss"][n]) for n in range(nv)] for i in range(n1)]
                if ffi == 2160:
                    mark["auxc"] = [s["amissc"][i] if r.random() < 0.1 else self.charitem()
                                    for i in range(s["nauxc"])]
            s["marks"].append(mark)
        return s

    def comment(self):
        r = self.rng
        k = r.random()
        if k < 0.08:
            return ""
        if k < 0.14:
            return r.choice(("1 2 3", "5", "0", "{curly}", "text {with annotation}", "1001", "---", "a {b",
                             "'quoted'", "\"q\"", "x = 1, y = 2,", "12   1010"))
        if k < 0.19 and self.remarks:
            return r.choice(self.remarks)
        self.remarks.append(self.text(8))
        return self.remarks[-1]


def nrows(spec):
    """How many marks, values: for evidence."""
    def size(o):
        return sum(size(i) for i in o) if isinstance(o, list) else 1
    return sum(size(m["v"]) for m in spec["marks"])


# ------------------------------------------------------------------ the contents dictionary

def nest(flat, dims):
    """Row-major nesting of a flat list: dims are slowest first."""
    if len(dims) == 1:
        return list(flat)
    step = len(flat) // dims[0] if dims[0] else 0
    return [nest(flat[i * step:(i + 1) * step], dims[1:]) for i in range(dims[0])]


def to_dict(s, header_only=False, ignored=0):
    """What nappy documents that it holds for this content: axes slowest first."""
    ffi = s["ffi"]
    d = {"FFI": ffi, "NIV": NIV[ffi], "ONAME": s["oname"], "ORG": s["org"], "SNAME": s["sname"],
         "MNAME": s["mname"], "IVOL": s["ivol"], "NVOL": s["nvol"], "DATE": list(s["date"]),
         "RDATE": list(s["rdate"]), "NV": len(s["vname"]), "VSCAL": list(s["vscal"]),
         "VMISS": list(s["vmiss"]), "VNAME": list(s["vname"]), "NSCOML": len(s["scom"]),
         "SCOM": list(s["scom"]), "NNCOML": len(s["ncom"]), "NCOM": list(s["ncom"]),
         "XNAME": s["xname"][::-1], "DX": s["dx"][::-1]}
    if ffi != 1001:
        d["NAUXV"] = len(s["aname"])
        if s["aname"]:
            d["ASCAL"], d["AMISS"], d["ANAME"] = list(s["ascal"]), list(s["amiss"]), list(s["aname"])
    if ffi == 1020:
        d["NVPM"] = s["nvpm"]
    if ffi in GRID:
        d["NX"], d["NXDEF"] = s["nx"][::-1], s["nxdef"][::-1]
    if ffi == 2160:
        d["LENX"], d["NAUXC"] = s["lenx"], s["nauxc"]
        if s["aname"]:
            d["LENA"] = [None] * len(s["amiss"]) + list(s["lena"])
            d["AMISS"] = list(s["amiss"]) + list(s["amissc"])
    if header_only:
        return d

    marks, nv = s["marks"], len(s["vname"])
    if ffi in (1001, 1010):
        d["X"] = [m["x"] for m in marks]
        d["V"] = [[m["v"][n] for m in marks] for n in range(nv)]
    elif ffi == 1020:
        d["X"] = [m["x"] for m in marks]
        d["V"] = [[v for m in marks for v in m["v"][n]] for n in range(nv)]
    elif ffi in GRID:
        d["X"] = [[m["x"] for m in marks]] + [list(x) for x in s["xdef"][::-1]]
        d["V"] = [[nest(m["v"][n], s["nx"][::-1]) for m in marks] for n in range(nv)]
    elif ffi in (2110, 2160):
        d["X"] = [[m["x"], [row[0] for row in m["v"]]] for m in marks]
        d["V"] = [[[row[n + 1] for row in m["v"]] for m in marks] for n in range(nv)]
        d["NX"] = [len(m["v"]) for m in marks]
    elif ffi == 2310:
        d["X"] = [[m["x"], [m["aux"][1]]] for m in marks]
        d["V"] = [[list(m["v"][n]) for m in marks] for n in range(nv)]
        d["NX"] = [len(m["v"][0]) for m in marks]
        d["DX"] = list(s["dx"]) + [m["aux"][2] for m in marks]
    if ffi != 1001:
        d["A"] = [[m["aux"][a] for m in marks] for a in range(len(s["amiss"]))]
        if ffi == 2160:
            d["A"] += [[m["auxc"][a] for m in marks] for a in range(s["nauxc"])]
    return d


def same(a, b):
    """Equal content: numbers by value, text by text, sequences item by item."""
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if a is None or b is None:
        return a is b
    if hasattr(a, "__len__") or hasattr(b, "__len__"):
        if isinstance(a, dict) or isinstance(b, dict):
            return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and \
                all(same(a[k], b[k]) for k in a)
        return hasattr(a, "__len__") and hasattr(b, "__len__") and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    return a == b


def first_difference(a, b, where=""):
    """A short account of where two contents differ."""
    if hasattr(a, "__len__") and hasattr(b, "__len__") and not isinstance(a, (str, dict)) \
            and not isinstance(b, (str, dict)):
        if len(a) != len(b):
            return "%s has %d items, expected %d" % (where, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return first_difference(x, y, "%s[%d]" % (where, i))
    return "%s is %s, expected %s" % (where, repr(b)[:120], repr(a)[:120])


def compare_dict(want, got, ignore=()):
    """None, or how the dictionary `got` differs from what it has to hold."""
    for k in want:
        if k in ignore:
            continue
        if k not in got:
            return "item %s is not there" % k
        if not same(want[k], got[k]):
            return first_difference(want[k], got[k], k)
    return None
