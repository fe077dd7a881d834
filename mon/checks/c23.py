"""C23: Outputs depend only on inputs, and inputs are never modified."""

import os
import pickle
import re
import shutil
import signal
import subprocess
import sys

from mon import fresh, nc, render
from mon.checks import c19
from mon.core import Inconclusive, Violation

CASES = {"quick": 72, "thorough": 1500}
RULE = ("Each case puts the same list of 8 to 14 operations (those of C19 and the conversion commands, with default output names "
        "too) on the same random inputs through three processes that differ in hash seed, working directory, time zone, locale, "
        "clock, file mask, folder for temporary files, order, number of repetitions and what their output files held before, one "
        "of them without the permission to write to its inputs. Results and written bytes must agree. In every process, folders "
        "are compared before and after each operation and the interpreter's audit events are recorded: nothing but the "
        "requested outputs may be made, changed, opened for writing, renamed or removed.")
REQUIRED = ["hash seed", "time zone", "working directory", "locale", "clock", "repeated", "existing output", "unwritable inputs",
            "default name", "read", "write", "csv", "nc2na", "na2nc", "readxr", "arrays", "dict2nc", "compare", "na2nc command",
            "nc2csv command", "command", "several outputs", "other files beside the outputs"]
ASSUMPTIONS = ["the time and date of a conversion are the local ones of its process",
               "files opened by the NetCDF library are only seen through the folders and the missing permission to write"]
EOF_MONITOR = False
CPU_LIMIT = 400
ZONES = ("UTC", "America/New_York", "Asia/Kolkata", "Pacific/Auckland", "XYZ+13:30", "Pacific/Kiritimati")
LOCALES = ("C.UTF-8", "C", "POSIX")
REAL_INPUT_MODE = 0o444
BASE = [None]
CAN_DROP = [False]


def setup(base, tier):
    fresh.setup(base)
    BASE[0] = base
    probe = os.path.join(base, "probe")
    open(probe, "w").close()
    os.chmod(probe, 0o444)
    CAN_DROP[0] = fresh.run(try_drop, probe)[1]


def try_drop(probe):
    from mon import batch
    if not batch.drop_privileges():
        return False
    try:
        open(probe, "a").close()
        return False
    except OSError:
        pass
    try:
        open("/repo/nappy/__init__.py").close()
        import netCDF4                                                                  # noqa
        return True
    except Exception:
        return False


def relative(op, folder):
    op = dict(op)
    for k in ("path", "other"):
        if k in op:
            op[k] = os.path.relpath(op[k], folder)
    return op


def more_ops(rng, ctx, files, ncs, g):
    """The commands, and conversions that choose the name of the output."""
    r = rng
    k = r.choice(("na2nc command", "nc2csv command", "default", "default", "default"))
    path, ds = r.choice(ncs)
    fixed = [f for f in files if f[1]["ffi"] not in (2110, 2160, 2310) and not f[2]]
    if k == "nc2csv command" or (k == "na2nc command" and not fixed):
        return {"kind": "nc2csv command", "path": path, "args": r.choice(([], ["--annotated"], ["-s", "2"], ["-n"]))}
    if k == "na2nc command":
        return {"kind": k, "path": r.choice(fixed)[0], "args": r.choice(([], ["-t", "days since 1950-01-01"]))}
    ctx.feature("default name")
    if fixed and r.random() < 0.4:
        return {"kind": "default", "what": r.choice(("na2nc", "csv")), "path": r.choice(fixed)[0], "options": {}}
    return {"kind": "default", "what": r.choice(("nc2na", "nc2csv")), "path": path,
            "options": r.choice(({}, {"size_limit": 2}, {"annotation": True}))}


def case(rng, i, ctx):
    home = os.path.join(ctx.dir, "inputs.d")
    os.makedirs(home)
    real, ctx.dir = ctx.dir, home
    try:
        files, dicts, ncs, g = c19.write_inputs(rng, ctx)
        ops = []
        for _ in range(rng.randint(8, 14)):
            k = rng.random()
            ops.append(c19.na_ops(rng, ctx, files, dicts) if k < 0.35 else
                       c19.nc_ops(rng, ctx, files, dicts, ncs, g) if k < 0.8 else more_ops(rng, ctx, files, ncs, g))
    finally:
        ctx.dir = real
    ops = [relative(op, home) for op in ops]
    ctx.feature(*[op["kind"] for op in ops])
    ctx.sample = repr(ops)
    ctx.seen(repr(ops))
    runs = []
    unwritable = rng.randrange(1, 3) if CAN_DROP[0] else None
    if unwritable is None:
        ctx.feature("unwritable inputs")
        ctx.count("capabilities could not be dropped")
    for n in range(3):
        runs.append(run(rng, ctx, n, home, ops, dicts, n == unwritable))
    first = {}
    for n, results in enumerate(runs):
        for r in results:
            op = ops[r["op"]]
            judge_files(ctx, op, r)
            facts = {"result": undate(op, r["result"]), "bytes": {strip(p, r["out"]): undate(op, b) for p, b in r["bytes"].items()}}
            ctx.count("results compared")
            ctx.count("files compared", len(facts["bytes"]))
            if len(facts["bytes"]) > 1:
                ctx.feature("several outputs")
            want = first.setdefault(r["op"], (n, facts))
            for what in ("result", "bytes"):
                if facts[what] != want[1][what]:
                    a, b = c19.difference(repr(want[1][what]), repr(facts[what]))
                    raise Violation("%r gives %s in one process and %s in another (%s)"
                                    % ({k: v for k, v in op.items() if k != "path"}, a, b, what), ops=ops, process=n, other=want[0])


def strip(path, out):
    return os.path.relpath(path, out)


def undate(op, value):
    """Without the date of the conversion in the header line with the dates."""
    if op["kind"] in ("na2nc", "na2nc command", "dict2nc", "readxr", "getvar"):
        return value
    made = op["kind"] in ("nc2na", "failing nc2na", "arrays", "command", "nc2csv command") or op.get("what") in ("nc2na", "nc2csv")
    if not made:
        return value
    if isinstance(value, bytes):
        lines = value.split(b"\n")
        if len(lines) > 6:
            lines[6] = re.sub(rb"\d+(\D+)\d+(\D+)\d+(\s*)$", rb"Y\1M\2D\3", lines[6])
        return b"\n".join(lines)
    if isinstance(value, tuple) and value[0] == "gives":
        names = re.findall(r"\('([^'\n]*)', ", value[1])
        return value[0], names
    return value


OUTPUTS = {"write": r"w\.na", "failing write": r"(none\.d/)?w\.na", "csv": r"c\.csv", "nc2na": r"(n|again)(_\d+)?(-\d+)?\.na",
           "arrays": r"a(_\d+)?(-\d+)?\.na", "na2nc": r"x\.nc", "failing na2nc": r"x\.nc", "dict2nc": r"d\.nc",
           "command": r"n(_\d+)?(-\d+)?\.na", "na2nc command": r"x\.nc", "nc2csv command": r"n(_\d+)?(-\d+)?\.csv"}
OUTPUTS["failing nc2na"] = OUTPUTS["nc2na"]


def judge_files(ctx, op, r):
    """Only the requested outputs were made or touched."""
    out = r["out"]
    kind = op["kind"]
    if kind == "default":
        stem, ext = os.path.splitext(os.path.basename(op["path"]))
        pattern = re.escape(stem) + {"na2nc": r"\.nc", "csv": r"\.csv", "nc2na": r"(_\d+)?(-\d+)?\.na",
                                     "nc2csv": r"(_\d+)?(-\d+)?\.csv"}[op["what"]]
    else:
        pattern = OUTPUTS.get(kind, r"(?!)")
    short = {k: v for k, v in op.items() if k != "path"}
    for p in r["changed"]:
        name = strip(p, out)
        if not re.fullmatch(pattern, name):
            raise Violation("%r made, changed or removed the file or folder %s (its outputs go to %s)" % (short, p, out))
    if r["result"][0] == "gives" and kind not in ("read", "failing read"):
        # what is there is what the operation says it has written
        if kind in ("nc2na", "failing nc2na", "arrays", "command", "nc2csv command") or op.get("what") in ("nc2na", "nc2csv"):
            said = set(re.findall(r"\('([^'\n]*?\.(?:na|csv))', ", r["result"][1]))
            there = {strip(p, out) for p in r["changed"]}
            if "only_return" not in repr(op) and not there <= said:
                raise Violation("%r says it has written %s, but made %s" % (short, sorted(said), sorted(there)))
    for event, path in r["events"]:
        ctx.count("audit events of writing")
        name = os.path.relpath(path, r["cwd"]) if path.startswith("/") else path
        if path == "/dev/null" or path.startswith(r["tmp"] + "/") or path.startswith(BASE[0] + "/pyc"):
            continue
        if name.startswith(out + "/") and re.fullmatch(pattern, strip(name, out)):
            continue
        raise Violation("%r: %s of %s (its outputs go to %s)" % (short, event, name, out))


def run(rng, ctx, n, home, ops, dicts, unwritable):
    root = os.path.join(ctx.dir, "p%d%s" % (n, "x" * rng.randint(0, 5)))
    cwd = os.path.join(root, *["sub"] * rng.randint(0, 2), "work.d")
    os.makedirs(os.path.dirname(cwd), exist_ok=True)
    shutil.copytree(home, cwd)
    if n:
        ctx.feature("working directory")
    order = []
    for k in range(len(ops)):
        order.append(k)
        if rng.random() < 0.3:
            order.append(k)
            ctx.feature("repeated")
    rng.shuffle(order)
    pairs = []
    for m, k in enumerate(order):
        out = "out%d.d" % m
        os.makedirs(os.path.join(cwd, out))
        op = ops[k]
        if rng.random() < 0.5:
            for name in ("other.txt", "n.bak", "w.na.old", "notes"):
                render.write(os.path.join(cwd, out, name), "not to be touched\n")
            ctx.feature("other files beside the outputs")
        if op["kind"] == "default":
            shutil.copyfile(os.path.join(cwd, op["path"]), os.path.join(cwd, out, os.path.basename(op["path"])))
        elif rng.random() < 0.3:
            name = {"write": "w.na", "csv": "c.csv", "nc2na": "n.na", "arrays": "a.na", "command": "n.na", "na2nc": "x.nc",
                    "dict2nc": "d.nc"}.get(op["kind"])
            if name:
                if name.endswith(".nc"):
                    nc.write(os.path.join(cwd, out, name), nc.NcGen(rng).dataset())
                else:
                    render.write(os.path.join(cwd, out, name), "what was there before\n" * rng.randint(1, 3000))
                ctx.feature("existing output")
        pairs.append((k, out))
    if unwritable:
        ctx.feature("unwritable inputs")
        for name in os.listdir(cwd):
            p = os.path.join(cwd, name)
            if os.path.isfile(p):
                os.chmod(p, REAL_INPUT_MODE)
        for k, out in pairs:
            if ops[k]["kind"] == "default":
                os.chmod(os.path.join(cwd, out, os.path.basename(ops[k]["path"])), REAL_INPUT_MODE)
        os.chmod(cwd, 0o555)
    tmp = os.path.join(root, "tmp.d")
    os.makedirs(tmp)
    user = os.path.join(root, "home.d")
    os.makedirs(user)
    job = {"ops": ops, "order": pairs, "cwd": cwd, "umask": 0o022 if n == 0 else rng.choice((0o022, 0o077, 0o002)),
           "unprivileged": unwritable, "clock": 0, "locale": n > 0 and rng.random() < 0.5,
           "shared": {k: v for k, v in dicts.items()}}
    env = dict(os.environ, PYTHONHASHSEED="0", TMPDIR=tmp, HOME=user, PYTHONPYCACHEPREFIX=os.path.join(BASE[0], "pyc"))
    env.pop("PYTHONDONTWRITEBYTECODE", None)
    if n:
        env["PYTHONHASHSEED"] = str(rng.randrange(1, 4294967295))
        env["TZ"] = rng.choice(ZONES)
        env["LC_ALL"] = env["LANG"] = rng.choice(LOCALES)
        ctx.feature("hash seed", "time zone", "locale")
        if rng.random() < 0.5:
            job["clock"] = rng.choice((86400 * 400, -86400 * 9000, 3600 * 5, 86400 * 20000))
            ctx.feature("clock")
    source, target = os.path.join(root, "job"), os.path.join(root, "results")
    with open(source, "wb") as fh:
        pickle.dump(job, fh)
    try:
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "mon.batch", source, target], env=env, cwd="/",
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=500,
                           preexec_fn=limit)
    except subprocess.TimeoutExpired:
        raise Inconclusive("a process did not come to an end within 500 s")
    if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        raise Violation("the operations do not come to an end: more than 200 s of CPU time")
    if p.returncode or not os.path.exists(target):
        raise Inconclusive("a process failed: %s" % p.stderr.decode(errors="replace")[-500:])
    if unwritable:
        os.chmod(cwd, 0o755)
    with open(target, "rb") as fh:
        results = pickle.load(fh)
    for r in results:
        r["cwd"], r["tmp"] = cwd, tmp
    for folder, what in ((tmp, "for temporary files"), (user, "of the user")):
        if os.listdir(folder):
            raise Violation("the folder %s holds %s after the operations" % (what, os.listdir(folder)))
    return results


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CPU, (200, 210))
    signal.setitimer(signal.ITIMER_PROF, 0)
