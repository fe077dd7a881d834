"""C08: file objects obey their open, read, write and close protocol."""

import os

import nappy

from mon import model, nautil, render
from mon.core import Violation, must, must_fail

CASES = {"quick": 12000, "thorough": 200000}
RULE = ("A history of 6-25 operations (open to read or write, readData, getNADict, write with options, close, close "
        "again, with blocks, failing opens, independent looks at the files) over up to four objects and four files "
        "runs against an executable model of the protocol: which operations succeed, which raise, what every file "
        "holds and which files are open (from /proc/self/fd) is compared after every operation. Non-trivial: at "
        "least one write and one refused operation; distinct by history and contents.")
REQUIRED = ["open-r", "open-w", "write", "second write refused", "write after close refused",
            "write when reading refused", "close", "close again", "with block", "missing file refused",
            "unknown mode refused", "unknown FFI refused"]


class Obj:
    def __init__(self, f, mode, path, d=None, s=None):
        self.f, self.mode, self.path, self.d, self.s = f, mode, path, d, s
        self.closed = self.written = False


class World:
    def __init__(self, rng, ctx):
        self.rng, self.ctx = rng, ctx
        self.files = {}         # path -> bytes every reader must see
        self.contents = {}      # path -> content, when the file is readable with a header
        self.objs = []
        self.history = []
        self.dropped = set()    # files of objects dropped without closing: no rule says when they are released
        self.paths = [ctx.path("w%d.na" % i) for i in range(4)]

    def log(self, *what):
        self.history.append(what)
        self.ctx.feature(what[0])
        self.ctx.count("operations")

    def fail(self, msg):
        raise Violation("%s; history: %r" % (msg, self.history))

    # -------------------------------------------------------------- what can be seen from outside

    def check(self):
        for path, data in self.files.items():
            with open(path, "rb") as fh:
                got = fh.read()
            if got != data:
                self.fail("%s does not hold what it should (%d bytes, expected %d)"
                          % (os.path.basename(path), len(got), len(data)))
        there = {os.path.join(self.ctx.dir, n) for n in os.listdir(self.ctx.dir)}
        if there != set(self.files):
            self.fail("files: %r, expected %r" % (sorted(there), sorted(self.files)))
        held = []
        for fd in os.listdir("/proc/self/fd"):
            try:
                held.append(os.readlink("/proc/self/fd/" + fd))
            except OSError:
                pass
        held = sorted(p for p in held if p.startswith(self.ctx.dir + "/"))
        still = {o.path for o in self.objs if not o.closed} | self.dropped
        if set(held) - still:
            self.fail("files are held open after closing: %r" % (sorted(set(held) - still),))

    # -------------------------------------------------------------- operations

    def expect(self, d, o):
        """The bytes a fresh object writes."""
        path = os.path.join(os.path.dirname(self.ctx.dir), "expect-%d" % os.getpid())
        text = nautil.write_dict(path, d, **o)
        os.remove(path)
        return text.encode()

    def new_content(self):
        return model.Gen(self.rng, digits=5, big=False).content(nmarks=self.rng.choice((1, 2, 5, 30)))

    def busy(self, path):
        return any(o.path == path and not o.closed for o in self.objs)

    def step(self):
        rng = self.rng
        ops = ["open-w", "open-r", "missing", "mode", "ffi"]
        if self.objs:
            ops += ["write"] * 5 + ["close"] * 3 + ["read", "dict", "drop"]
        ops += ["with"]
        getattr(self, "op_" + rng.choice(ops).replace("-", "_"))()
        self.check()

    def op_open_w(self):
        path = self.rng.choice(self.paths)
        if self.busy(path) or len([o for o in self.objs if not o.closed]) > 4:
            return
        s = self.new_content()
        d = model.to_dict(s)
        d["NLHEAD"] = 0
        self.log("open-w", os.path.basename(path), s["ffi"])
        f = must("opening for writing", nappy.openNAFile, path, "w", na_dict=d)
        self.files[path] = b""
        self.contents.pop(path, None)
        self.objs.append(Obj(f, "w", path, d, s))

    def op_open_r(self):
        paths = [p for p in self.contents]
        if not paths or len([o for o in self.objs if not o.closed]) > 4:
            return
        path = self.rng.choice(paths)
        self.log("open-r", os.path.basename(path))
        f = must("opening for reading; history: %r" % self.history, nappy.openNAFile, path)
        self.objs.append(Obj(f, "r", path, s=self.contents[path]))

    def op_write(self):
        o = self.rng.choice(self.objs)
        opts = {}
        if self.rng.random() < 0.3:
            opts["delimiter"] = self.rng.choice((",", " "))
        if self.rng.random() < 0.2:
            opts["annotation"] = True
        if self.rng.random() < 0.15:
            opts["no_header"] = True
        if o.mode == "w" and not o.closed and not o.written:
            self.log("write", os.path.basename(o.path), opts)
            want = self.expect(dict(o.d), opts)
            must("write; history: %r" % self.history, o.f.write, **opts)
            o.written = True
            self.files[o.path] = want
            if not opts or set(opts) == {"delimiter"} and opts["delimiter"] == " ":
                self.contents[o.path] = nautil.rounded(o.s, "%.10g")
            self.ctx.count("writes")
            return
        why = "write when reading refused" if o.mode == "r" else \
            "write after close refused" if o.closed and not o.written else "second write refused"
        self.log(why, os.path.basename(o.path), opts)
        must_fail("%s; history %r" % (why, self.history), o.f.write, **opts)

    def op_close(self):
        o = self.rng.choice(self.objs)
        self.log("close again" if o.closed else "close", os.path.basename(o.path))
        must("close; history %r" % self.history, o.f.close)
        o.closed = True

    def op_drop(self):
        o = self.rng.choice(self.objs)
        self.log("drop", os.path.basename(o.path))
        self.objs.remove(o)
        if not o.closed:
            self.dropped.add(o.path)

    def op_read(self):
        readers = [o for o in self.objs if o.mode == "r" and self.files.get(o.path) and o.path in self.contents
                   and not o.closed and self.contents[o.path] is o.s]
        if not readers:
            return
        o = self.rng.choice(readers)
        self.log("readData", os.path.basename(o.path))
        must("readData; history %r" % self.history, o.f.readData)
        diff = model.compare_dict(model.to_dict(o.s), o.f.getNADict())
        if diff:
            self.fail("reading gives other content: " + diff)
        self.ctx.count("reads")

    def op_dict(self):
        readers = [o for o in self.objs if o.mode == "r"]
        if not readers:
            return
        o = self.rng.choice(readers)
        self.log("getNADict", os.path.basename(o.path))
        diff = model.compare_dict(model.to_dict(o.s, header_only=True), must("getNADict", o.f.getNADict),
                                  ignore=("DX", "NX"))
        if diff:
            self.fail("the dictionary has other content: " + diff)

    def op_with(self):
        path = self.rng.choice(self.paths)
        if self.busy(path):
            return
        if path in self.contents and self.rng.random() < 0.5:
            self.log("with block", "r", os.path.basename(path))
            with must("opening", nappy.openNAFile, path) as f:
                f.readData()
                diff = model.compare_dict(model.to_dict(self.contents[path]), f.getNADict())
            if diff:
                self.fail("reading gives other content: " + diff)
            self.objs.append(self.closed(Obj(f, "r", path, s=self.contents[path])))
            return
        s = self.new_content()
        d = model.to_dict(s)
        d["NLHEAD"] = 3
        writes = self.rng.random() < 0.7
        fails = self.rng.random() < 0.3
        self.log("with block", "w", os.path.basename(path), s["ffi"], writes, fails)
        want = self.expect(dict(d), {})
        o = None

        class Stop(self.rng.choice((Exception, OSError, ValueError, KeyError, EOFError, BaseException))):
            pass
        try:
            with must("opening for writing", nappy.openNAFile, path, "w", na_dict=d) as f:
                o = Obj(f, "w", path, d, s)
                if writes:
                    must("write in a with block", f.write)
                    o.written = True
                if fails:
                    raise Stop()
        except Stop:
            pass
        else:
            if fails:
                self.fail("a with block hides the error raised in it")
        self.files[path] = want if writes else b""
        self.contents.pop(path, None)
        if writes:
            self.contents[path] = nautil.rounded(s, "%.10g")
        self.objs.append(self.closed(o))

    @staticmethod
    def closed(o):
        o.closed = True
        return o

    def op_missing(self):
        self.log("missing file refused")
        must_fail("opening a missing file", nappy.openNAFile, os.path.join(self.ctx.dir, "none", "x.na"))
        must_fail("opening a missing file", nappy.openNAFile, os.path.join(self.ctx.dir, "missing.na"))

    def op_mode(self):
        mode = self.rng.choice(("x", "a", "rw", "", "R", "w+", "rb"))
        path = self.rng.choice(self.paths)
        self.log("unknown mode refused", mode)
        must_fail("opening with mode %r" % mode, nappy.openNAFile, path, mode,
                  na_dict=model.to_dict(self.new_content()))

    def op_ffi(self):
        ffi = self.rng.choice((1, 0, 1002, 2000, 2011, 5010, 101, 10010, 2020, 9999, -1001))
        self.log("unknown FFI refused", ffi)
        path = self.rng.choice(self.paths)
        s = self.new_content()
        if self.rng.random() < 0.5:
            d = model.to_dict(s)
            d["FFI"] = ffi
            must_fail("writing with FFI %d" % ffi, nappy.openNAFile, path, "w", na_dict=d)
        else:
            side = os.path.join(os.path.dirname(self.ctx.dir), "ffi-%d.na" % os.getpid())
            text = render.render(s).split("\n", 1)
            render.write(side, "%s %d\n%s" % (text[0].split()[0], ffi, text[1]))
            try:
                must_fail("opening a file of FFI %d" % ffi, nappy.openNAFile, side)
            finally:
                os.remove(side)


def case(rng, i, ctx):
    w = World(rng, ctx)
    for _ in range(rng.randint(6, 25)):
        w.step()
    ctx.seen(repr(w.history))
    ctx.sample = repr(w.history)
    ctx.nontrivial = "write" in ctx.features and any(f.endswith("refused") for f in ctx.features)
