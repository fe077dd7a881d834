"""Runner: generates cases, runs them in forked workers, judges, and writes the evidence."""

import builtins
import hashlib
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(EVIDENCE, "replay")
KNOWN = os.path.join(VERIF, "known-findings.txt")
REPO = "/repo"

CPU_LIMIT = 40        # CPU seconds one case may use before it counts as a hang
WALL_LIMIT = 400      # seconds without any report from a worker: inconclusive
MEM_LIMIT = 6 << 30   # address space of one worker
EOF_READS = 5000      # reads at end of file, in a row, on one file object


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, msg, **detail):
        Exception.__init__(self, msg)
        self.msg = msg
        self.detail = detail


class Known(Violation):
    """A violation which is a listed known finding: `key` names it."""

    def __init__(self, key, msg):
        Violation.__init__(self, msg)
        self.key = key


class Inconclusive(Exception):
    """The monitor could not decide (harness trouble)."""


class Hang(BaseException):
    """The code under test does not come to an end."""


class Ctx:
    """What a case may use: its random numbers, a scratch directory and counters."""

    def __init__(self, rng, dir_, tier, index):
        self.rng = rng
        self.dir = dir_
        self.tier = tier
        self.index = index
        self.counts = {}
        self.features = set()
        self.digest = hashlib.sha1()
        self.nontrivial = True
        self.sample = None
        self._n = 0
        self.started = False

    def path(self, name=None, ext=".na"):
        self._n += 1
        return os.path.join(self.dir, name or "f%d%s" % (self._n, ext))

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def feature(self, *keys):
        self.features.update(str(k) for k in keys)

    def seen(self, obj):
        """Adds an input to the identity of this case."""
        self.started = True
        self.digest.update(obj if isinstance(obj, bytes) else str(obj).encode("utf-8", "surrogatepass"))


# ---------------------------------------------------------------- calling the code under test

def _on_timer(signum, frame):
    raise Hang("more than %d s of CPU time" % CPU_LIMIT)


def install_eof_monitor():
    """
    Watches text files opened for reading by nappy code: a reader that keeps asking at
    the end of the file will never come to an end.
    """
    import io
    real_open = builtins.open

    class Watched(io.TextIOWrapper):
        eof_reads = 0

        def readline(self, *args):
            line = super().readline(*args)
            if line == "":
                self.eof_reads += 1
                if self.eof_reads > EOF_READS:
                    raise Hang("%d reads at the end of %s" % (self.eof_reads, self.name))
            return line

    def watched_open(file, mode="r", *args, **kw):
        if mode == "r" and not args and not kw and isinstance(file, str):
            return Watched(io.BufferedReader(io.FileIO(file, "r")))
        return real_open(file, mode, *args, **kw)

    builtins.open = watched_open
    return real_open


def brief(exc):
    return "%s: %s" % (type(exc).__name__, str(exc)[:300])


def attempt(fn, *args, **kw):
    """Calls the code under test; returns (result, None) or (None, exception). Hangs are violations."""
    try:
        return fn(*args, **kw), None
    except (Violation, Inconclusive):
        raise
    except Hang as e:
        raise Violation("does not come to an end: %s" % e)
    except MemoryError as e:
        raise Violation("uses memory without bound: %s" % e)
    except RecursionError as e:
        return None, e
    except SystemExit as e:
        return None, e
    except Exception as e:
        return None, e


def must(what, fn, *args, **kw):
    """The call has to succeed."""
    res, exc = attempt(fn, *args, **kw)
    if exc is not None:
        tb = traceback.extract_tb(exc.__traceback__)
        where = "; ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-4:])
        raise Violation("%s raised %s (at %s)" % (what, brief(exc), where))
    return res


def must_fail(what, fn, *args, **kw):
    """The call has to raise."""
    res, exc = attempt(fn, *args, **kw)
    if exc is None:
        raise Violation("%s: no error was raised (returned %s)" % (what, repr(res)[:200]))
    return exc


# ---------------------------------------------------------------- one case

def load(prop):
    return importlib.import_module("mon.checks.%s" % prop.lower())


def run_case(mod, prop, seed, tier, index, base):
    """Returns a plain record of what happened."""
    rng = random.Random("%s/%s/%s" % (seed, prop, index))
    d = os.path.join(base, "c%d" % index)
    os.mkdir(d)
    os.chdir(d)
    ctx = Ctx(rng, d, tier, index)
    rec = {"case": index, "status": "ok"}
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CPU_LIMIT", CPU_LIMIT), 5)
    try:
        try:
            mod.case(rng, index, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Known as e:
        rec.update(status="known", key=e.key, msg=e.msg)
    except Violation as e:
        rec.update(status="violation", msg=e.msg,
                   detail={k: repr(v)[:6000] for k, v in e.detail.items()})
    except Inconclusive as e:
        rec.update(status="inconclusive", msg=str(e))
    except Hang as e:
        rec.update(status="violation", msg="does not come to an end: %s" % e, detail={})
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = "".join(traceback.format_exception(e))[-3000:]
        if isinstance(e, (OSError, MemoryError)) or not ctx.started:
            rec.update(status="error", msg=tb)
        else:
            # The oracles make sense of every outcome of the unchanged code, so this is
            # something it does not produce (a result of another kind, say).
            rec.update(status="violation", msg="an outcome the monitor cannot make sense of:\n" + tb, detail={})
    os.chdir(base)
    shutil.rmtree(d, ignore_errors=True)
    rec["counts"] = ctx.counts
    rec["features"] = sorted(ctx.features)
    rec["digest"] = ctx.digest.hexdigest()[:16]
    rec["nontrivial"] = bool(ctx.nontrivial)
    if ctx.sample is not None:
        rec["sample"] = str(ctx.sample)[:1500]
    return rec


def quiet(keep=None):
    """Points the standard streams of this process at nothing."""
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        if keep is None or fd not in keep:
            os.dup2(null, fd)
    os.close(null)


def worker(mod, prop, seed, tier, indices, wfd, base):
    quiet()
    sys.stdin = open(os.devnull)
    if getattr(mod, "EOF_MONITOR", True):
        install_eof_monitor()
    soft = getattr(mod, "MEM_LIMIT", MEM_LIMIT)
    resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
    signal.signal(signal.SIGPROF, _on_timer)
    if hasattr(mod, "init_worker"):
        mod.init_worker()
    with os.fdopen(wfd, "w", buffering=1) as out:
        for index in indices:
            rec = run_case(mod, prop, seed, tier, index, base)
            out.write(json.dumps(rec) + "\n")
        out.write(json.dumps({"done": True}) + "\n")
    os._exit(0)


def explore(mod, prop, seed, tier, n, nworkers, base, max_violations=5):
    """Runs cases 0..n-1 and returns their records."""
    records, procs = [], {}
    sys.stdout.flush()
    for w in range(nworkers):
        indices = range(w, n, nworkers)
        if not len(indices):
            continue
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                worker(mod, prop, seed, tier, indices, wfd, base)
            except BaseException:
                try:
                    os.write(wfd, (json.dumps({"case": -1, "status": "error",
                                               "msg": traceback.format_exc()[-3000:]}) + "\n").encode())
                except BaseException:
                    pass
            finally:
                os._exit(3)
        os.close(wfd)
        procs[r] = {"pid": pid, "buf": b"", "last": time.time(), "done": False}

    bad, stop = 0, False
    while procs and not stop:
        ready, _, _ = select.select(list(procs), [], [], 5)
        now = time.time()
        for fd in list(procs):
            p = procs[fd]
            if fd in ready:
                data = os.read(fd, 1 << 16)
                p["last"] = now
                p["buf"] += data
                *lines, p["buf"] = p["buf"].split(b"\n")
                for line in lines:
                    rec = json.loads(line)
                    if rec.get("done"):
                        p["done"] = True
                        continue
                    records.append(rec)
                    if rec["status"] in ("violation", "error"):
                        bad += 1
                if not data:
                    if not p["done"]:
                        records.append({"case": -1, "status": "error", "msg": "a worker ended early"})
                    os.close(fd)
                    os.waitpid(p["pid"], 0)
                    del procs[fd]
            elif now - p["last"] > WALL_LIMIT:
                records.append({"case": -1, "status": "inconclusive",
                                "msg": "no report from a worker in %d s" % WALL_LIMIT})
                stop = True
        if bad >= max_violations:
            stop = True
    for fd, p in procs.items():
        try:
            os.killpg(p["pid"], signal.SIGKILL)
        except OSError:
            pass
        os.close(fd)
        os.waitpid(p["pid"], 0)
    return records, stop


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    """{key: description} of the known findings of a property."""
    found = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known: property=%s " % prop):
                rest = line.split(None, 2)[2]
                key, _, text = rest.partition(" ")
                found[key.partition("=")[2]] = text.strip()
    return found


# ---------------------------------------------------------------- main

def main(argv):
    if argv[0] == "replay":
        return replay(argv[1])
    prop = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    t0 = time.time()
    mod = load(prop)
    n = mod.CASES[tier]
    if os.environ.get("MON_CASES"):
        n = int(os.environ["MON_CASES"])
    nworkers = int(os.environ.get("MON_WORKERS", getattr(mod, "WORKERS", 8)))
    os.makedirs(REPLAY, exist_ok=True)
    base = tempfile.mkdtemp(prefix="mon-%s-" % prop)
    try:
        if hasattr(mod, "setup"):
            mod.setup(base, tier)
        records, stopped = explore(mod, prop, seed, tier, n, nworkers, base,
                                   int(os.environ.get("MON_MAX", "5")))
        known = known_findings(prop)
        known_lines = []
        for key, fn in getattr(mod, "REPRODUCERS", {}).items():
            os.chdir(base)
            if key in known and fn(base):
                known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)

    violations = []
    counts, features, digests, samples = {}, {}, set(), []
    inconclusive, errors = [], []
    for rec in sorted(records, key=lambda r: r["case"]):
        for k, v in rec.get("counts", {}).items():
            counts[k] = counts.get(k, 0) + v
        for f in rec.get("features", ()):
            features[f] = features.get(f, 0) + 1
        if rec["status"] == "known" and rec["key"] not in known:
            rec["status"] = "violation"
        if rec["status"] == "violation":
            violations.append(rec)
        elif rec["status"] == "inconclusive":
            inconclusive.append(rec)
        elif rec["status"] == "error":
            errors.append(rec)
        elif rec.get("nontrivial"):
            digests.add(rec["digest"])
        if rec.get("sample") and len(samples) < 4:
            samples.append({"case": rec["case"], "input": rec["sample"]})

    # A run that did not see what it exists to see decided nothing.
    missing = [f for f in getattr(mod, "REQUIRED", ())
               if not (counts.get(f) or features.get(f))] if not stopped and n >= 50 else []

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len([r for r in records if r["case"] >= 0]),
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE,
            "samples": samples or [{"case": r["case"], "input": r.get("msg", "")} for r in records[:1]],
            "observed": dict(sorted(counts.items())),
            "cases_with_feature": dict(sorted(features.items())),
            "inconclusive": len(inconclusive),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(EVIDENCE, "%s.json" % prop), "w") as fh:
        json.dump(evidence, fh, indent=1)

    for line in known_lines:
        print(line)
    for rec in violations[:5]:
        path = os.path.join(REPLAY, "%s-%s.json" % (prop, rec["case"]))
        with open(path, "w") as fh:
            json.dump({"property": prop, "seed": seed, "tier": tier, "case": rec["case"],
                       "message": rec["msg"], "detail": rec.get("detail"),
                       "input": rec.get("sample")}, fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + rec["msg"][:600].replace("\n", "\n  "))
    print("%s %s seed=%d: %d cases, %d distinct, %d violations, %d inconclusive, %d errors, %.1f s"
          % (prop, tier, seed, evidence["coverage"]["evaluations"], len(digests), len(violations),
             len(inconclusive), len(errors), time.time() - t0))
    if violations:
        return 1
    for rec in errors[:3]:
        print("ERROR of the check, case %s: %s" % (rec["case"], rec["msg"]))
    for rec in inconclusive[:3]:
        print("INCONCLUSIVE, case %s: %s" % (rec["case"], rec["msg"]))
    if missing:
        print("INCONCLUSIVE: never observed: %s" % ", ".join(missing))
    if errors or missing or len(inconclusive) > 0.05 * n:
        return 2
    return 0


def replay(path):
    """Runs one recorded case again."""
    info = json.load(open(path))
    mod = load(info["property"])
    base = tempfile.mkdtemp(prefix="mon-replay-")
    try:
        if hasattr(mod, "setup"):
            mod.setup(base, info["tier"])
        if getattr(mod, "EOF_MONITOR", True):
            install_eof_monitor()
        signal.signal(signal.SIGPROF, _on_timer)
        if hasattr(mod, "init_worker"):
            mod.init_worker()
        rec = run_case(mod, info["property"], info["seed"], info["tier"], info["case"], base)
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)
    print(json.dumps(rec, indent=1))
    return 1 if rec["status"] == "violation" else 0
