"""C26: A write that cannot be completed is reported, never silently short."""

import builtins
import copy
import errno
import gc
import io
import os
import re
import resource

import nappy
import nappy.script.nc2csv
import nappy.script.nc2na

from mon import model, nautil, nc, render
from mon.core import Hang, Violation, attempt, must

CASES = {"quick": 2200, "thorough": 40000}
RULE = ("Files of every format are written directly, converted to CSV, and converted from NetCDF (several and split outputs, "
        "commands) while a fault is active: a file size limit of the process at a random byte (0, just under the size, at "
        "buffer boundaries), a device that is full, an error of the k-th write to storage (once or lasting), short writes, an "
        "error on closing, a target that cannot be opened. Whatever is reported as written must be complete when it is "
        "reported; a fault that was hit must be raised. After it, with the fault gone, the same and other targets, and "
        "objects opened before, are written and compared with what is written without faults, also after the failed objects "
        "have been collected.")
REQUIRED = ["direct write", "with block", "to CSV", "NetCDF to NA", "NetCDF to CSV", "arrays", "command", "size limit", "full device",
            "failing write", "failing once", "short writes", "failing close", "cannot be opened", "limit 0", "limit size-1",
            "limit size", "beyond one buffer", "several outputs", "later output fails", "raised", "completed", "same target",
            "other content to the same target", "opened before", "no header", "last write fails"] + \
           ["ffi-%d" % f for f in model.FFIS]
EOF_MONITOR = False


# ---------------------------------------------------------------- faults

class Fault:
    """A fault that is on while the code under test runs."""
    hits = 0

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


class SizeLimit(Fault):
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))
        return self

    def __exit__(self, *args):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


class Storage(Fault):
    """Files opened for writing reach storage through this: the k-th write of the n-th file fails, and so on."""

    def __init__(self, file_no, k=None, lasting=True, short=False, close=False, code=errno.ENOSPC):
        self.file_no, self.k, self.lasting, self.short, self.bad_close, self.code = file_no, k, lasting, short, close, code
        self.opened = 0
        self.on = False

    def __enter__(self):
        fault = self
        self.real = real = builtins.open

        class Raw(io.FileIO):
            writes = 0
            no = 0

            def write(self, data):
                if not fault.on or self.no != fault.file_no:
                    return super().write(data)
                self.writes += 1
                if fault.k is not None and (self.writes == fault.k or fault.lasting and self.writes > fault.k):
                    fault.hits += 1
                    raise OSError(fault.code, os.strerror(fault.code))
                if fault.short and len(data) > 1:
                    fault.hits += 1
                    return super().write(memoryview(data)[:max(1, len(data) // 3)])
                return super().write(data)

            def close(self):
                closed = self.closed
                super().close()
                if fault.on and fault.bad_close and self.no == fault.file_no and not closed:
                    fault.hits += 1
                    raise OSError(fault.code, os.strerror(fault.code))

        def opener(file, mode="r", *args, **kw):
            if not (set(mode) & set("wax+")) or "b" in mode or not isinstance(file, str):
                return real(file, mode, *args, **kw)
            raw = Raw(file, mode.replace("t", ""))
            raw.no = fault.opened
            fault.opened += 1
            return io.TextIOWrapper(io.BufferedWriter(raw))

        self.on = True
        builtins.open = io.open = opener
        return self

    def __exit__(self, *args):
        self.on = False
        builtins.open = io.open = self.real


# ---------------------------------------------------------------- operations

def undated(text):
    return re.sub(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d( - Converted)", r"TIME\1", text)


def content(path):
    with open(path, newline="") as fh:
        return undated(fh.read())


def direct(d, options, block=False):
    def op(out):
        if block:
            with nappy.openNAFile(out, "w", na_dict=copy.deepcopy(d)) as f:
                f.write(**options)
                done = {out: content(out)} if os.path.isfile(out) else {}
            return [out], done
        f = nappy.openNAFile(out, "w", na_dict=copy.deepcopy(d))
        f.write(**options)
        # it says that it is done: it has to be there
        done = {out: content(out)} if os.path.isfile(out) else {}
        f.close()
        return [out], done
    return op


def csv(src, options):
    def op(out):
        nappy.convertNAToCSV(src, out, **options)
        return [out], {}
    return op


def netcdf(fn, args, options):
    def op(out):
        return list(fn(*args, out, **options)), {}
    return op


def command(fn, args):
    def op(out):
        return list(fn(args + ["-o", out])), {}
    return op


def make(rng, ctx):
    """(operation, identity)"""
    k = rng.random()
    if k < 0.62:
        ffi = rng.choice(model.FFIS)
        kw = {}
        if rng.random() < 0.3:
            kw["nmarks"] = rng.randint(30, 120) if ffi not in (3010, 4010) else rng.randint(5, 20)
        s = model.Gen(rng).content(ffi, **kw)
        ctx.feature("ffi-%d" % ffi)
        options = {}
        if rng.random() < 0.2:
            options["annotation"] = True
        if rng.random() < 0.15:
            options["no_header"] = True
            ctx.feature("no header")
        if k < 0.42:
            if rng.random() < 0.3:
                options["delimiter"] = rng.choice((",", "\t"))
            if rng.random() < 0.3:
                options["float_format"] = "%.17g"
            ctx.feature("direct write")
            block = rng.random() < 0.4
            if block:
                ctx.feature("with block")
            return direct(nautil.user_dict(rng, s), options, block), repr((s, options))
        src = render.write(os.path.join(ctx.dir, "in.na"), render.render(s))
        ctx.feature("to CSV")
        return csv(src, options), repr((s, options))
    g = nc.NcGen(rng)
    ds = g.dataset(onlyrank=rng.choice((None, 1)))
    path = os.path.join(ctx.dir, "in%d.nc" % rng.randrange(10 ** 9))
    nc.write(path, ds)
    options = {}
    if rng.random() < 0.4:
        options["size_limit"] = rng.randint(1, 6)
    if rng.random() < 0.2:
        options["no_header"] = True
    k = rng.random()
    if k < 0.4:
        ctx.feature("NetCDF to NA")
        return netcdf(nappy.convertNCToNA, (path,), options), repr((ds, options))
    if k < 0.6:
        ctx.feature("NetCDF to CSV")
        return netcdf(nappy.convertNCToCSV, (path,), options), repr((ds, options))
    if k < 0.8:
        ctx.feature("arrays")
        with nc.open_arrays(path) as x:
            x.load()
            arrays, atts = [x[v] for v in x.data_vars], list(x.attrs.items())
        return netcdf(nappy.convertXarrayObjectsToNA, (arrays, atts), options), repr((ds, options))
    ctx.feature("command")
    args = ["-i", path] + (["-l", str(options["size_limit"])] if "size_limit" in options else [])
    fn = rng.choice((nappy.script.nc2na.nc2na, nappy.script.nc2csv.nc2csv))
    return command(fn, args), repr((ds, args, fn.__name__))


def names(op, files, dir_):
    return [os.path.relpath(f, dir_) for f in files]


def run(op, dir_, name="out.x"):
    """{file name: content} of what is written without any fault."""
    os.makedirs(dir_, exist_ok=True)
    files, _ = must("writing without a fault", op, os.path.join(dir_, name))
    return {os.path.relpath(f, dir_): content(f) for f in files}


def check(want, dir_, files, what):
    """Everything reported is there and complete."""
    got = {os.path.relpath(f, dir_): f for f in files}
    if sorted(got) != sorted(want):
        raise Violation("%s: reported are %r, expected %r" % (what, sorted(got), sorted(want)))
    for name, text in want.items():
        if not os.path.exists(got[name]):
            raise Violation("%s: success is reported but %s does not exist" % (what, name))
        found = content(got[name])
        if found != text:
            raise Violation("%s: success is reported but %s is not complete: %d of %d characters%s"
                            % (what, name, len(found), len(text), "" if text.startswith(found) else ", and not its beginning"),
                            got=found, want=text)


def choose(rng, ctx, want, order):
    """(fault, kind, whether it has to be raised)"""
    # dates are shortened in contents
    sizes = [len(want[n].encode()) for n in order]
    stamped = [len(re.findall("TIME - Converted", want[n])) * 15 for n in order]
    sizes = [a + b for a, b in zip(sizes, stamped)]
    big = max(sizes)
    k = rng.random()
    if k < 0.45:
        c = rng.random()
        if c < 0.1:
            n = 0
            ctx.feature("limit 0")
        elif c < 0.25:
            n = big - 1
            ctx.feature("limit size-1")
        elif c < 0.35:
            n = big
            ctx.feature("limit size")
        elif c < 0.55 and big > 8192:
            n = min(big - 1, 8192 * rng.randint(1, big // 8192) + rng.choice((-1, 0, 1)))
            ctx.feature("beyond one buffer")
        elif c < 0.75 and len(set(sizes)) > 1:
            # an earlier file fits, a later one does not
            n = rng.randint(min(sizes), big - 1)
            if any(a <= n for a in sizes[:[x > n for x in sizes].index(True)]):
                ctx.feature("later output fails")
        else:
            n = rng.randrange(big)
        ctx.feature("size limit")
        return SizeLimit(n), "a size limit of %d bytes (of %r)" % (n, sizes), any(x > n for x in sizes)
    no = rng.randrange(len(order))
    writes = max(1, -(-sizes[no] // 8192))
    code = rng.choice((errno.ENOSPC, errno.EIO, errno.EDQUOT))
    if k < 0.7:
        lasting = rng.random() < 0.6
        n = rng.choice((1, writes, rng.randint(1, writes)))
        ctx.feature("failing write" if lasting else "failing once")
        if n == writes > 1:
            ctx.feature("last write fails")
        if no:
            ctx.feature("later output fails")
        return Storage(no, k=n, lasting=lasting, code=code), "failure of write %d to file %d%s" % \
            (n, no, "" if lasting else ", once"), None
    if k < 0.78:
        ctx.feature("short writes")
        return Storage(no, short=True), "short writes", False
    ctx.feature("failing close")
    return Storage(no, close=True, code=code), "failure on closing file %d" % no, None


def blocked(rng, ctx, out):
    """Makes the target impossible to write; what is wrong."""
    k = rng.choice(("full", "full", "directory", "no parent", "file parent", "long"))
    if k == "full":
        ctx.feature("full device")
        return "full"
    ctx.feature("cannot be opened")
    return k


def case(rng, i, ctx):
    op, ident = make(rng, ctx)
    ctx.seen(ident)
    ctx.sample = ident
    free = os.path.join(ctx.dir, "free.d")
    want = run(op, free)
    order = list(want)
    if len(order) > 1:
        ctx.feature("several outputs")
    d = os.path.join(ctx.dir, "out.d")
    os.mkdir(d)
    out = os.path.join(d, "out.x")

    before, bd = None, None
    if rng.random() < 0.4:
        s = model.Gen(rng).content(rng.choice(model.FFIS))
        bd = nautil.user_dict(rng, s)
        wanted = run(direct(bd, {}), free, "before.na")["before.na"]
        before = must("opening", nappy.openNAFile, os.path.join(d, "before.na"), "w", na_dict=copy.deepcopy(bd))

    if rng.random() < 0.2:
        what, exc = unwritable(rng, ctx, op, order, d)
    else:
        fault, what, certain = choose(rng, ctx, want, order)
        with fault:
            res, exc = guarded(op, out)
            if exc is not None:
                exc = exc if rng.random() < 0.7 else None      # the user keeps it, with all it refers to
                raised = True
            else:
                raised = False
        if raised:
            ctx.feature("raised")
            if certain is False:
                raise Violation("%s: an error was raised although everything can be written: %r" % (what, exc))
        else:
            files, done = res
            check(want, d, files, what)
            for f, text in done.items():
                if text != want[os.path.relpath(f, d)]:
                    raise Violation("%s: write() returned but only %d of %d characters are in the file"
                                    % (what, len(text), len(want[os.path.relpath(f, d)])))
            if certain or (isinstance(fault, Storage) and not fault.short and fault.hits):
                raise Violation("%s: it was not reported" % what)
            ctx.feature("completed")
        if isinstance(fault, Storage):
            ctx.count("faults hit", fault.hits)
    ctx.count("operations with a fault")

    # afterwards everything works
    files, _ = must("writing again after %s" % what, op, out)
    check(want, d, files, "writing again after %s" % what)
    ctx.feature("same target")
    after = {f: content(f) for f in files}
    if rng.random() < 0.5:
        op2, ident2 = make(rng, ctx)
        want2 = run(op2, os.path.join(ctx.dir, "free2.d"))
        for f in after:
            os.stat(f)
        files, _ = must("writing other content after %s" % what, op2, out)
        check(want2, d, files, "other content after %s" % what)
        ctx.feature("other content to the same target")
        after.update({f: content(f) for f in files})
    if before is not None:
        must("write to an object opened before %s" % what, before.write)
        must("close of an object opened before %s" % what, before.close)
        if content(os.path.join(d, "before.na")) != wanted:
            raise Violation("an object opened before %s writes something else" % what)
        ctx.feature("opened before")
    exc = None
    gc.collect()
    for f, text in after.items():
        if content(f) != text:
            raise Violation("after %s, %s was written correctly but changed later" % (what, os.path.basename(f)),
                            got=content(f), want=text)


def guarded(op, out):
    try:
        return attempt(op, out)
    except (Violation, Hang):
        raise
    except Exception as e:                              # (an error while looking at the result)
        return None, e


def unwritable(rng, ctx, op, order, d):
    """A target that cannot be written at all."""
    k = rng.choice(("full", "full", "directory", "no parent", "file parent", "long"))
    name = "out.x"
    if k == "full":
        # one of the files is on a full device
        for n in rng.sample(order, rng.randint(1, len(order))):
            os.symlink("/dev/full", os.path.join(d, n))
        ctx.feature("full device")
        what = "a full device"
    elif k == "directory":
        os.mkdir(os.path.join(d, rng.choice(order)))
        what = "a target that is a directory"
    elif k == "no parent":
        name = "none.d/out.x"
        what = "a directory that does not exist"
    elif k == "file parent":
        open(os.path.join(d, "file"), "w").close()
        name = "file/out.x"
        what = "a directory that is a file"
    else:
        name = "x" * 300 + ".x"
        what = "a name that is too long"
    if k != "full":
        ctx.feature("cannot be opened")
    res, exc = guarded(op, os.path.join(d, name))
    if exc is None:
        raise Violation("%s: success is reported (%r)" % (what, res[0]))
    ctx.feature("raised")
    for n in order:
        p = os.path.join(d, n)
        if os.path.islink(p):
            os.unlink(p)
        elif os.path.isdir(p):
            os.rmdir(p)
    return what, exc
