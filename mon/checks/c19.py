"""C19: Uses of the library do not influence one another."""

import copy
import os
import random
import re
import shutil
import sys
import threading

from mon import fresh, model, nc, render
from mon.core import Inconclusive, Violation

CASES = {"quick": 420, "thorough": 7000}
RULE = ("A pool of operations (opening, reading with names and patterns, identifying, writing, converting in every direction "
        "through functions and classes with all options, comparing, and ones that have to fail) on a few random files and "
        "dictionaries shared between them. Each operation is first done alone in a new process; then all of them in one new "
        "process: one after the other in random order and repeatedly, interleaved step by step between their library calls by a "
        "random scheduler, in concurrent threads that are switched every 10 microseconds, or with files replaced in between. "
        "Every result (contents, files, names, errors) must be the one the operation gives alone; afterwards the working "
        "directory, environment, file mask and open files must be as before.")
REQUIRED = ["sequence", "interleaved", "threads", "replaced", "read", "write", "csv", "nc2na", "na2nc", "readxr", "getvar",
            "arrays", "dict2nc", "compare", "ffi", "choose", "failing read", "failing write", "failing nc2na", "failing na2nc",
            "pattern", "callback", "failing callback", "overrides", "annotation", "shared dictionary", "same file twice",
            "stepped nc2na", "stepped na2nc", "steps interleaved", "command", "object twice"]
ASSUMPTIONS = ["netCDF4 and HDF5 are not made for several threads, so at most one thread converts from or to NetCDF",
               "messages of errors are compared without the names of directories"]
EOF_MONITOR = False
CPU_LIMIT = 200
NC_KINDS = ("nc2na", "na2nc", "readxr", "getvar", "arrays", "dict2nc", "command", "failing nc2na", "failing na2nc")


def setup(base, tier):
    fresh.setup(base)


# ---------------------------------------------------------------- in the new processes

def callback_upper(item):
    return item.upper(), "unit of " + item[:1]


def callback_fails(item):
    raise RuntimeError("callback")


CALLBACKS = {"upper": callback_upper, "fails": callback_fails}
PATTERNS = (r"^\s*(.*)\[(.+?)\](.*)\s*$", r"^(\S*)\s+(\S+)(.*)$", r"^(.)(.)(.*)$")


def undated(text):
    return re.sub(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d( - Converted)", r"TIME\1", text)


def text_of(path):
    with open(path, newline="") as fh:
        return undated(fh.read())


def of_array(a):
    return (a.name, a.dims, repr(a.values.tolist()), sorted((k, str(v)) for k, v in a.attrs.items()),
            [(k, repr(a.coords[k].values.tolist()), sorted((x, str(v)) for x, v in a.coords[k].attrs.items())) for k in a.coords])


def of_arrays(arrays):
    return [of_array(a) for a in arrays]


def files_of(names, out):
    return [(os.path.relpath(f, out), text_of(f)) for f in names]


def undated_atts(atts):
    return sorted((k, re.sub(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d", "TIME", str(v))) for k, v in dict(atts).items())


def steps(op, out, shared):
    """A generator that yields between the library calls of the operation and returns its result."""
    import nappy
    kind, o = op["kind"], op
    if kind in ("read", "failing read"):
        kw = {}
        if o.get("callback"):
            kw["var_and_units_callback"] = CALLBACKS[o["callback"]]
        f = nappy.openNAFile(o["path"], ignore_header_lines=o.get("ignored", 0), **kw)
        yield
        head = repr(sorted(f.getNADict().items()))
        if o.get("pattern"):
            f.var_and_units_pattern = re.compile(o["pattern"])
        yield
        try:
            names = repr((f.getVariables(), f.getIndependentVariables(), f.getAuxVariables()))
        except RuntimeError as e:
            names = repr(e)
        yield
        facts = repr((f.getFFI(), f.getNumHeaderLines(), f.getOriginator(), f.getOrganisation(), f.getSource(), f.getMission(),
                      f.getVolumes(), f.getFileDates(), f.getNormalComments(), f.getSpecialComments(), f["NV"], f["nothing"]))
        yield
        f.readData()
        yield
        d = f.getNADict()
        yield
        res = repr(sorted(d.items())), repr((f.X, f.V, f.A))
        if o.get("again"):
            f.readData()
            yield
            res += (repr((f.X, f.V, f.A)),)
        f.close()
        return head, names, facts, res
    if kind in ("write", "failing write"):
        d = shared.get(o["dict"]) if o.get("share") else copy.deepcopy(shared[o["dict"]])
        if o.get("drop"):
            d = {k: v for k, v in d.items() if k != o["drop"]}
        path = os.path.join(out, o.get("name", "w.na"))
        f = nappy.openNAFile(path, "w", na_dict=d)
        yield
        f.write(**o["options"])
        yield
        f.close()
        yield
        return text_of(path)
    if kind == "csv":
        path = os.path.join(out, "c.csv")
        nappy.convertNAToCSV(o["path"], path, **o["options"])
        yield
        return text_of(path)
    if kind in ("nc2na", "failing nc2na"):
        path = os.path.join(out, "n.na")
        kw = dict(o["options"])
        if o.get("stepped"):
            import nappy.nc_interface.nc_to_na
            conv = {k: kw.pop(k) for k in ("var_ids", "exclude_vars", "requested_ffi", "na_items_to_override") if k in kw}
            c = nappy.nc_interface.nc_to_na.NCToNA(o["path"], **conv)
            yield
            c.convert()
            yield
            names = c.constructNAFileNames(path, kw.get("size_limit"))
            yield
            c.writeNAFiles(path, **kw)
            yield
            res = files_of(c.output_files_written, out), files_of(names, out)
            if o.get("again"):
                p2 = os.path.join(out, "again.na")
                c.writeNAFiles(p2, **kw)
                yield
                res += (files_of(c.output_files_written, out),)
            return res
        names = (nappy.convertNCToCSV if o.get("csv") else nappy.convertNCToNA)(o["path"], path, **kw)
        yield
        return files_of(names, out)
    if kind in ("na2nc", "failing na2nc"):
        path = os.path.join(out, "x.nc")
        kw = dict(o["options"])
        if o.get("stepped"):
            import nappy.nc_interface.na_to_nc
            src = o["path"]
            if o.get("object"):
                src = nappy.openNAFile(src)
                yield
            c = nappy.nc_interface.na_to_nc.NAToNC(src, **kw)
            yield
            c.convert()
            yield
            c.writeNCFile(path)
            yield
        else:
            nappy.convertNAToNC(o["path"], path, **kw)
            yield
        return nc.everything(path)
    if kind == "readxr":
        a, b, atts = nappy.readXarrayObjectsFromNA(o["path"])
        yield
        return of_arrays(a), of_arrays(b), undated_atts(atts)
    if kind == "getvar":
        a = nappy.getXarrayVariableFromNA(o["path"], o["var"])
        yield
        return of_array(a)
    if kind == "arrays":
        key = ("arrays", o["path"])
        if key not in shared:
            with nc.open_arrays(o["path"]) as x:
                x.load()
                shared[key] = [x[v] for v in x.data_vars], list(x.attrs.items())
        arrays, atts = shared[key]
        yield
        names = nappy.convertXarrayObjectsToNA(arrays, atts, os.path.join(out, "a.na"), **o["options"])
        yield
        return files_of(names, out), of_arrays(arrays)
    if kind == "dict2nc":
        path = os.path.join(out, "d.nc")
        nappy.writeNADictToNC(shared[o["dict"]] if o.get("share") else copy.deepcopy(shared[o["dict"]]), path)
        yield
        return nc.everything(path)
    if kind == "compare":
        res = nappy.compareNA(o["path"], o["other"], **o["options"])
        yield
        return repr(res)
    if kind == "ffi":
        res = nappy.readFFI(o["path"], o.get("ignored", 0))
        yield
        return res, nappy.getNAFileClass(res).__name__, nappy.getFileNameWithNewExtension(o["path"], "q")
    if kind == "choose":
        d = copy.deepcopy(shared[o["dict"]])
        d.pop("FFI", None)
        res = nappy.chooseFFI(d)
        yield
        return res
    if kind == "command":
        import nappy.script.nc2na
        names = nappy.script.nc2na.nc2na(["-i", o["path"], "-o", os.path.join(out, "n.na")] + o["args"])
        yield
        return files_of(names, out)
    if kind == "na2nc command":
        import nappy.script.na2nc
        path = os.path.join(out, "x.nc")
        nappy.script.na2nc.na2nc(["-i", o["path"], "-o", path] + o["args"])
        yield
        return nc.everything(path)
    if kind == "nc2csv command":
        import nappy.script.nc2csv
        names = nappy.script.nc2csv.nc2csv(["-i", o["path"], "-o", os.path.join(out, "n.csv")] + o["args"])
        yield
        return files_of(names, out)
    if kind == "default":
        # the folder of the outputs holds a copy of the input
        path = os.path.join(out, os.path.basename(o["path"]))
        if o["what"] == "na2nc":
            nappy.convertNAToNC(path, time_warning=False, **o["options"])
            yield
            return nc.everything(path[:-2] + "nc")
        if o["what"] == "csv":
            nappy.convertNAToCSV(path, **o["options"])
            yield
            return text_of(path[:-2] + "csv")
        names = (nappy.convertNCToCSV if o["what"] == "nc2csv" else nappy.convertNCToNA)(path, **o["options"])
        yield
        return files_of(names, out)
    raise AssertionError(kind)


def outcome(gen, out):
    """Drives an operation to its end."""
    while True:
        done, res = step(gen, out)
        if done:
            return res


def step(gen, out):
    try:
        next(gen)
        return False, None
    except StopIteration as e:
        return True, ("gives", repr(e.value))
    except (Exception, SystemExit) as e:
        return True, ("raises", type(e).__name__, plain(str(e), out))


def plain(message, out):
    # the folder of the case and the one of the operation differ from run to run
    message = message.replace(out, "OUT")
    message = re.sub(r"/[^\s']*/mon-C19-[^/\s']*/c\d+(?:/[a-z]+\d*)?", "BASE", message)
    return re.sub(r"0x[0-9a-f]+|/tmp/\S+", "X", message)


def prepare():
    import builtins
    builtins.input = lambda *a: ""
    # (what is imported later is the same for all)
    import warnings
    warnings.simplefilter("ignore")
    os.environ["MON"] = "1"


def state():
    mask = os.umask(0)
    os.umask(mask)
    # of the files of this case
    fds = sorted(os.readlink("/proc/self/fd/" + f) for f in os.listdir("/proc/self/fd")
                 if os.path.exists("/proc/self/fd/" + f))
    return {"working directory": os.getcwd(), "environment": dict(os.environ), "file mask": mask,
            "open files": [f for f in fds if "/mon-" in f or f.startswith(os.getcwd())]}


def alone(op, shared, out):
    os.makedirs(out)
    return outcome(steps(op, out, copy.deepcopy(shared)), out)


def history(ops, shared, dirs, mode, seed):
    """All of them in this process: [(number, result)] and what is different afterwards."""
    import gc
    import nappy                                                                        # noqa
    rng = random.Random(seed)
    before = state()
    results = []
    for d in dirs:
        os.makedirs(d)
    if mode == "sequence":
        for n, op in enumerate(ops):
            results.append((n, outcome(steps(op, dirs[n], shared), dirs[n])))
    elif mode == "interleaved":
        live = {n: steps(op, dirs[n], shared) for n, op in enumerate(ops)}
        switches, last = 0, None
        while live:
            n = rng.choice(list(live))
            for _ in range(rng.choice((1, 1, 1, 2, 4))):
                done, res = step(live[n], dirs[n])
                if done:
                    del live[n]
                    results.append((n, res))
                    break
            switches += n != last
            last = n
        results.append(("switches", switches))
    else:
        sys.setswitchinterval(1e-5)
        single = [n for n, op in enumerate(ops) if op["kind"] in NC_KINDS]
        groups = [[n] for n in range(len(ops)) if n not in single] + ([single] if single else [])
        start = threading.Barrier(len(groups))

        def work(group):
            start.wait()
            for k in range(3):
                for n in group:
                    d = os.path.join(dirs[n], str(k))
                    os.makedirs(d)
                    results.append((n, outcome(steps(ops[n], d, shared), d)))
        threads = [threading.Thread(target=work, args=(g,)) for g in groups]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        results.append(("threads", len(groups)))
    gc.collect()
    after = state()
    return results, [(k, before[k], after[k]) for k in before if before[k] != after[k]]


def replaced_history(first, second, replace, dirs):
    """An operation, its file replaced by another content, an operation on the same path."""
    import nappy                                                                        # noqa
    for d in dirs:
        os.makedirs(d)
    out = [outcome(steps(first, dirs[0], {}), dirs[0])]
    target, source, way = replace
    if way == "replace":
        shutil.copyfile(source, target + ".new")
        os.replace(target + ".new", target)
    elif way == "rewrite":
        shutil.copyfile(source, target)
    elif way == "remove":
        os.remove(target)
        shutil.copyfile(source, target)
    else:
        nappy.convertNAToNC(source, target, time_warning=False)
    out.append(outcome(steps(second, dirs[1], {}), dirs[1]))
    return out


# ---------------------------------------------------------------- making operations

def na_ops(rng, ctx, files, dicts):
    """An operation without NetCDF."""
    r = rng
    path, spec, ignored = r.choice(files)
    plain_files = [f for f in files if not f[2]]
    k = r.choice(("read", "read", "read", "write", "write", "csv", "compare", "ffi", "choose", "failing read", "failing write"))
    if k == "read":
        op = {"kind": "read", "path": path, "ignored": ignored}
        c = r.random()
        if c < 0.2:
            op["pattern"] = r.choice(PATTERNS)
            ctx.feature("pattern")
        elif c < 0.35:
            op["callback"] = "upper"
            ctx.feature("callback")
        elif c < 0.42:
            op["callback"] = "fails"
            ctx.feature("failing callback")
        if r.random() < 0.3:
            op["again"] = True
            ctx.feature("object twice")
        return op
    if k == "write":
        op = {"kind": "write", "dict": r.randrange(len(dicts)), "options": {}}
        for name, choices in (("delimiter", (",", "\t", ";")), ("float_format", ("%.3f", "%s", "%.17g")), ("annotation", (True,)),
                              ("no_header", (True,))):
            if r.random() < 0.3:
                op["options"][name] = r.choice(choices)
                if name == "annotation":
                    ctx.feature("annotation")
        if r.random() < 0.4:
            op["share"] = True
            ctx.feature("shared dictionary")
        return op
    if k == "csv" and plain_files:
        return {"kind": "csv", "path": r.choice(plain_files)[0], "options": r.choice(({}, {"annotation": True},
                                                                                     {"no_header": True}))}
    if k == "compare" and plain_files:
        return {"kind": "compare", "path": r.choice(plain_files)[0], "other": r.choice(plain_files)[0],
                "options": r.choice(({}, {"header": False}, {"number_clever": False}, {"body": False}))}
    if k == "choose":
        return {"kind": "choose", "dict": r.randrange(len(dicts))}
    if k == "failing read":
        c = r.random()
        if c < 0.3:
            return {"kind": "failing read", "path": path + ".bad"}
        if c < 0.6:
            return {"kind": "failing read", "path": path + ".short", "ignored": ignored}
        return {"kind": "failing read", "path": path, "ignored": ignored + 1}
    if k == "failing write":
        c = r.random()
        op = {"kind": "failing write", "dict": r.randrange(len(dicts)), "options": {"annotation": True}}
        if c < 0.5:
            op["drop"] = r.choice(("VNAME", "X", "V", "DX", "ONAME", "VMISS"))
        elif c < 0.75:
            op["options"] = {"float_format": r.choice(("%d %d", "nothing", "%q"))}
        else:
            op["name"] = "none.d/w.na"
        return op
    return {"kind": "ffi", "path": path, "ignored": ignored}


def nc_ops(rng, ctx, files, dicts, ncs, g):
    r = rng
    fixed = [f for f in files if f[1]["ffi"] not in (2110, 2160, 2310) and not f[2]]
    k = r.choice(("nc2na", "nc2na", "na2nc", "na2nc", "readxr", "getvar", "arrays", "dict2nc", "command", "failing nc2na",
                  "failing na2nc"))
    path, ds = r.choice(ncs)
    names = [v["name"] for v in ds["vars"] if v["dims"] and not v.get("isbounds")]
    if k in ("nc2na", "failing nc2na", "arrays"):
        kw = {}
        for name, choices in (("delimiter", (",", "\t")), ("float_format", ("%.3f", "%.17g")), ("annotation", (True,)),
                              ("no_header", (True,)), ("size_limit", (1, 2, 5)), ("requested_ffi", (1001, 2010, 2110, 3010, 1020))):
            if r.random() < 0.2:
                kw[name] = r.choice(choices)
        if r.random() < 0.35:
            kw["na_items_to_override"] = {x: ([g.line()] if x in ("NCOM", "SCOM") else g.line()) for x in
                                          r.sample(("ORG", "ONAME", "MNAME", "SNAME", "NCOM", "SCOM"), 2)}
            ctx.feature("overrides")
        if k == "arrays":
            return {"kind": k, "path": path, "options": kw}
        if r.random() < 0.3:
            kw["var_ids"] = r.sample(names, r.randint(1, len(names)))
        if r.random() < 0.2:
            kw["exclude_vars"] = r.sample(names, 1)
        op = {"kind": k, "path": path, "options": kw}
        if k == "failing nc2na":
            c = r.random()
            if c < 0.3:
                op["path"] = path + ".none"
            elif c < 0.6:
                kw["requested_ffi"] = r.choice((2160, 1010, 99))
            else:
                kw["na_items_to_override"] = {"DATE": "today", "MNAME": "failed", "ORG": "failed"}
            return op
        if r.random() < 0.4:
            op["stepped"] = True
            ctx.feature("stepped nc2na")
            if r.random() < 0.4:
                op["again"] = True
                ctx.feature("object twice")
        elif r.random() < 0.2:
            op["csv"] = True
            kw.pop("delimiter", None)
        return op
    if k == "command":
        return {"kind": k, "path": path, "args": r.choice(([], ["-f", "%g"], ["--annotated"], ["-e", names[0]],
                                                           ["--overwrite-metadata=ORG,x,MNAME,y"], ["--wrong"]))}
    if k == "dict2nc":
        op = {"kind": k, "dict": r.randrange(len(dicts))}
        if r.random() < 0.5:
            op["share"] = True
            ctx.feature("shared dictionary")
        return op
    if not fixed:
        return {"kind": "nc2na", "path": path, "options": {}}
    path, spec, _ = r.choice(fixed)
    if k == "readxr":
        return {"kind": k, "path": path}
    if k == "getvar":
        return {"kind": k, "path": path, "var": r.choice((0, spec["vname"][0], len(spec["vname"]) - 1))}
    kw = {"time_warning": r.random() < 0.3}
    if r.random() < 0.3:
        kw["variables"] = [0]
    if r.random() < 0.3:
        kw["global_attributes"] = [("added", g.line())]
    if r.random() < 0.3:
        kw["time_units"] = "days since 1950-01-01"
    if r.random() < 0.3:
        kw["rename_variables"] = {spec["vname"][0].split("(")[0].strip(): "renamed_%d" % r.randint(0, 9)}
    op = {"kind": k, "path": path, "options": kw}
    if k == "failing na2nc":
        if r.random() < 0.5:
            kw["variables"] = ["no such variable"]
        else:
            op["path"] += ".short"
    elif r.random() < 0.4:
        op["stepped"] = True
        ctx.feature("stepped na2nc")
        if r.random() < 0.5:
            op["object"] = True
    return op


def write_inputs(rng, ctx):
    """Files and dictionaries the operations share."""
    files, dicts, ncs = [], {}, []
    for n in range(rng.randint(2, 4)):
        g = model.Gen(rng, digits=rng.choice((3, 6)))
        ffi = rng.choice(model.FFIS) if n == 0 or rng.random() < 0.7 else files[-1][1]["ffi"]
        kw = {"nmarks": rng.randint(1, 12)} if ffi not in (3010, 4010) else {"nmarks": rng.randint(1, 4)}
        if rng.random() < 0.1:
            kw["nmarks"] = 60
        s = g.content(ffi, **kw)
        ignored = rng.choice((0, 0, 0, 2)) if n else 0
        path = os.path.join(ctx.dir, "in%d.na" % n)
        text = render.render(s, render.Wild(rng) if rng.random() < 0.3 else render.Layout(),
                             ignored=["ignored %d" % i for i in range(ignored)])
        render.write(path, text)
        lines = text.split("\n")
        render.write(path + ".short", "\n".join(lines[:max(1, int(len(lines) * rng.uniform(0.2, 0.95)))]))
        render.write(path + ".bad", rng.choice(("", "x y\n", "12 9999\n" + text, text.replace(" ", "q", 1))))
        files.append((path, s, ignored))
        dicts[n] = dict(model.to_dict(s), NLHEAD=1)
        ctx.seen(text)
    g = nc.NcGen(rng)
    for n in range(rng.randint(1, 2)):
        ds = nc.NcGen(rng).dataset()
        path = os.path.join(ctx.dir, "in%d.nc" % n)
        nc.write(path, ds)
        ncs.append((path, ds))
        ctx.seen(repr(ds))
    return files, dicts, ncs, g


def case(rng, i, ctx):
    files, dicts, ncs, g = write_inputs(rng, ctx)
    mode = rng.choice(("sequence", "interleaved", "interleaved", "threads", "threads", "replaced"))
    ctx.feature(mode)
    if mode == "replaced":
        return replaced(rng, ctx, ncs)
    ops = []
    for _ in range(rng.randint(3, 8)):
        ops.append(na_ops(rng, ctx, files, dicts) if rng.random() < 0.55 else nc_ops(rng, ctx, files, dicts, ncs, g))
    ctx.feature(*[op["kind"] for op in ops])
    ctx.sample = repr((mode, ops))
    ctx.seen(repr((mode, ops)))
    paths = [op["path"] for op in ops if "path" in op]
    if len(set(paths)) < len(paths):
        ctx.feature("same file twice")
    want = {}
    for n, op in enumerate(ops):
        key = repr(op)
        if key not in want:
            res = fresh.run(alone, op, dicts, os.path.join(ctx.dir, "alone.d", str(n)), cwd=ctx.dir, before=prepare)
            if res[0] != "returned":
                raise Violation("an operation alone: %r" % (res,))
            want[key] = res[1]
            ctx.count("operations that give", res[1][0] == "gives")
            ctx.count("operations that raise", res[1][0] == "raises")
    order = list(ops)
    if mode != "threads":
        order += rng.sample(ops, rng.randint(0, len(ops)))
    rng.shuffle(order)
    dirs = [os.path.join(ctx.dir, "all.d", str(n)) for n in range(len(order))]
    res = fresh.run(history, order, dicts, dirs, mode, rng.random(), cwd=ctx.dir, before=prepare, timeout=200, cpu=150)
    if res[0] != "returned":
        raise Violation("the operations together: %r" % (res,))
    results, changed = res[1]
    for n, got in results:
        if n == "switches":
            ctx.count("switches between operations", got)
            if got > len(order) + 1:
                ctx.feature("steps interleaved")
            continue
        if n == "threads":
            ctx.count("threads", got)
            continue
        op = order[n]
        expected = want[repr(op)]
        ctx.count("results compared")
        if norm(got, op) != norm(expected, op):
            a, b = difference(repr(norm(expected, op)), repr(norm(got, op)))
            raise Violation("%s: the operation %r gives something else than alone: ...%s... instead of ...%s..."
                            % (mode, {k: v for k, v in op.items() if k != "path"}, b, a), operations=order, got=got, want=expected)
    for what, a, b in changed:
        if what == "open files":
            continue
        raise Violation("%s: the %s was changed: %r, %r" % (mode, what, a, b))


def norm(res, op):
    # An error may be reported from other parts of the same call
    return res


def difference(a, b):
    n = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    return a[max(0, n - 60):n + 100], b[max(0, n - 60):n + 100]


def replaced(rng, ctx, ncs):
    """The content of a path changes between two uses of it."""
    ops, sources = [], []
    way = rng.choice(("replace", "rewrite", "remove", "nappy"))
    kind = rng.choice(("na", "nc")) if way != "nappy" else "nc"
    g = model.Gen(rng, digits=6)
    fixed = (1001, 1010, 2010, 3010, 4010)
    one = g.content(rng.choice(fixed), nmarks=rng.randint(1, 5))
    two = g.content(rng.choice(fixed), nmarks=rng.randint(1, 5))
    if rng.random() < 0.5:
        two = dict(one, oname="another", vmiss=[v for v in one["vmiss"]], mname="another mission")
    target = os.path.join(ctx.dir, "t." + kind)
    source = os.path.join(ctx.dir, "s." + ("na" if way == "nappy" else kind))
    if kind == "na":
        render.write(target, render.render(one))
        render.write(source, render.render(two))
        ops = [{"kind": k, "path": target, "options": {"time_warning": False} if k == "na2nc" else {}} for k in
               (rng.choice(("read", "csv", "na2nc", "ffi", "readxr")), rng.choice(("read", "csv", "na2nc", "readxr")))]
    else:
        nc.write(target, nc.NcGen(rng).dataset())
        if way == "nappy":
            render.write(source, render.render(two))
        else:
            nc.write(source, nc.NcGen(rng).dataset())
        ops = [{"kind": "nc2na", "path": target, "options": {}} for k in range(2)]
        for o in ops:
            if rng.random() < 0.3:
                o["stepped"] = True
            if rng.random() < 0.2:
                o["options"]["size_limit"] = 3
    ctx.feature(ops[0]["kind"], ops[1]["kind"])
    ctx.sample = repr((way, ops))
    ctx.seen(repr((way, ops, one, two)))
    original = target + ".orig"
    shutil.copyfile(target, original)
    base = os.path.join(ctx.dir, "all.d")
    res = fresh.run(replaced_history, ops[0], ops[1], (target, source, way), [os.path.join(base, "0"), os.path.join(base, "1")],
                    cwd=ctx.dir, before=prepare)
    if res[0] != "returned":
        raise Violation("replacing the file (%s) after an operation %r: %r" % (way, ops[0]["kind"], res))
    # the file is now the second content
    two_alone = fresh.run(alone, ops[1], {}, os.path.join(ctx.dir, "alone.d", "1"), cwd=ctx.dir, before=prepare)
    shutil.copyfile(original, target)
    one_alone = fresh.run(alone, ops[0], {}, os.path.join(ctx.dir, "alone.d", "0"), cwd=ctx.dir, before=prepare)
    if "raised" in (one_alone[0], two_alone[0]):
        raise Inconclusive(repr((one_alone, two_alone)))
    for what, got, want in (("before", res[1][0], one_alone[1]), ("after", res[1][1], two_alone[1])):
        ctx.count("results compared")
        if got != want:
            a, b = difference(repr(want), repr(got))
            raise Violation("%s its content is replaced (%s), %r gives something else than alone: ...%s... instead of ...%s..."
                            % (what, way, ops[what == "after"]["kind"], b, a), got=got, want=want)
