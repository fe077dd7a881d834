"""
Running operations in processes of their own that import nappy for the first time.

Check modules that use this must not import nappy, nor modules that do.
"""

import os
import pickle
import select
import signal
import sys
import time
import traceback

from mon.core import Inconclusive, Violation


def setup(base):
    """For a check's setup(): caches the compiled sources of this run."""
    sys.pycache_prefix = os.path.join(base, "pyc")
    sys.dont_write_bytecode = False
    import netCDF4, numpy, xarray, cftime                                               # noqa
    run(_warm)


def _warm():
    import nappy, nappy.nc_interface.nc_to_na, nappy.nc_interface.na_to_nc              # noqa
    import nappy.script.nc2na, nappy.script.na2nc, nappy.script.nc2csv                  # noqa


def failure(exc):
    return ("raised", type(exc).__name__, str(exc))


def run(fn, *args, env=None, cwd=None, timeout=120, cpu=60, before=None):
    """
    The result of fn(*args) in a new process: ("returned", value) or ("raised", type, message).
    Environment variables with the value None are removed.
    """
    if "nappy" in sys.modules:
        raise Inconclusive("nappy has been imported before")
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, cpu)
            for k, v in (env or {}).items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            if env and "TZ" in env:
                time.tzset()
            if cwd:
                os.chdir(cwd)
            if before:
                before()
            try:
                res = ("returned", fn(*args))
            except (Violation, Inconclusive) as e:
                res = ("verdict", e)
            except BaseException as e:
                res = failure(e) + (traceback.format_exc()[-1500:],)
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as out:
                out.write(data)
        except BaseException:
            os._exit(3)
        os._exit(0)
    os.close(w)
    data, end = b"", time.time() + timeout
    try:
        while True:
            ready, _, _ = select.select([r], [], [], max(0, end - time.time()))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                raise Violation("does not come to an end within %d s" % timeout)
            more = os.read(r, 1 << 16)
            if not more:
                break
            data += more
    finally:
        os.close(r)
        status = os.waitpid(pid, 0)[1]
    if not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGPROF:
            raise Violation("does not come to an end: more than %d s of CPU time" % cpu)
        if os.WIFSIGNALED(status):
            raise Violation("the process was ended by signal %d" % os.WTERMSIG(status))
        raise Inconclusive("a process gave no result")
    res = pickle.loads(data)
    if res[0] == "verdict":
        raise res[1]
    return res


def must(what, fn, *args, **kw):
    """The operation has to succeed; its result."""
    res = run(fn, *args, **kw)
    if res[0] == "raised":
        raise Violation("%s raised %s: %s" % (what, res[1], res[2][:300]), traceback=res[3])
    return res[1]
