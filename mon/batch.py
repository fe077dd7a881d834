"""
Worker of C23: runs a list of operations (python -m mon.batch INPUT OUTPUT) and records their results,
the files in and around their output folders, and every opening for writing and every removal or
renaming of a file that the interpreter announces.
"""

import hashlib
import os
import pickle
import re
import sys

EVENTS = []
WATCH = [False]
REMOVING = ("os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.utime", "os.link", "os.symlink",
            "os.chown", "shutil.copyfile", "shutil.move", "shutil.rmtree", "shutil.copymode", "shutil.copystat")
ELSEWHERE = ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "socket.connect", "socket.bind", "os.kill")


def hook(event, args):
    if not WATCH[0]:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            if not isinstance(path, int):
                EVENTS.append(("open for writing", where(path)))
    elif event in REMOVING:
        for a in args[:2] if event in ("os.rename", "os.link", "shutil.move") else \
                args[1:2] if event in ("os.symlink", "shutil.copyfile", "shutil.copymode", "shutil.copystat") else args[:1]:
            # (removing within a folder that is open: os.remove and os.rmdir take path and dir_fd)
            fd = args[1] if event in ("os.remove", "os.rmdir") and len(args) > 1 else -1
            if not isinstance(a, int):
                EVENTS.append((event, where(a, fd)))
    elif event in ELSEWHERE:
        EVENTS.append((event, repr(args)[:100]))


def where(path, fd=-1):
    path = os.fsdecode(path)
    folder = os.readlink("/proc/self/fd/%d" % fd) if isinstance(fd, int) and fd >= 0 else os.getcwd()
    return os.path.normpath(os.path.join(folder, path))


def snapshot(folder):
    """{path: (kind, mode, time of modification, digest)} of all below the folder."""
    res = {}
    for d, subs, names in os.walk(folder):
        for n in subs + names:
            p = os.path.join(d, n)
            st = os.lstat(p)
            if n in names and not os.path.islink(p):
                with open(p, "rb") as fh:
                    digest = hashlib.sha1(fh.read()).hexdigest()
                res[os.path.relpath(p, folder)] = (oct(st.st_mode), st.st_mtime_ns, st.st_nlink, digest)
            else:
                res[os.path.relpath(p, folder)] = (oct(st.st_mode), None, None, None)
    return res


def drop_privileges():
    """Without capabilities the permissions of files hold for root too."""
    import ctypes
    libc = ctypes.CDLL(None, use_errno=True)
    header = (ctypes.c_uint32 * 2)(0x20080522, 0)
    data = (ctypes.c_uint32 * 6)(*[0] * 6)
    return libc.capset(header, data) == 0


def main(source, target):
    with open(source, "rb") as fh:
        job = pickle.load(fh)
    if job.get("locale"):
        import locale
        locale.setlocale(locale.LC_ALL, "")
    os.umask(job["umask"])
    if job.get("unprivileged"):
        drop_privileges()
    os.chdir(job["cwd"])
    import netCDF4, numpy, xarray, cftime                                               # noqa
    import time
    if job["clock"]:
        real = time.time
        time.time = lambda: real() + job["clock"]
    from mon.checks import c19
    c19.prepare()
    import nappy, nappy.nc_interface.nc_to_na, nappy.nc_interface.na_to_nc              # noqa
    import nappy.script.nc2na, nappy.script.na2nc, nappy.script.nc2csv                  # noqa
    sys.addaudithook(hook)
    results = []
    for n, out in job["order"]:
        op = job["ops"][n]
        before = snapshot(".")
        del EVENTS[:]
        WATCH[0] = True
        res = c19.outcome(c19.steps(op, out, job["shared"]), out)
        WATCH[0] = False
        after = snapshot(".")
        changed = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
        results.append({"op": n, "out": out, "result": res, "changed": changed, "events": sorted(set(EVENTS)),
                        "bytes": {p: contents(p) for p in changed}})
    with open(target, "wb") as fh:
        pickle.dump(results, fh)


def contents(path):
    """What is in a file, up to the time and the date of the conversion."""
    if not os.path.isfile(path):
        return "folder" if os.path.isdir(path) else "removed"
    if path.endswith(".nc"):
        from mon import nc
        try:
            return nc.everything(path)
        except Exception as e:
            return repr(e)
    with open(path, "rb") as fh:
        data = fh.read()
    return re.sub(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d( - Converted)", rb"TIME\1", data)


if __name__ == "__main__":
    main(*sys.argv[1:])
