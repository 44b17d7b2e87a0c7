"""Simulated processes: one fork each, one simulated disk each, one exact outcome each."""
import gc
import logging
import os
import pickle
import random
import runpy
import signal
import sys
import tempfile
import traceback

from dst.simfs import SimCrash, SimFS

STEP_LIMIT_S = int(os.environ.get("VERIF_STEP_LIMIT", "120"))

CRASHED, EXITED, RAISED, RETURNED, HUNG, BROKEN = (
    "crashed", "exited", "raised", "returned", "hung", "broken",
)


class Outcome:
    """What the outside world can see of a finished simulated process."""

    def __init__(self, **kw):
        self.how = kw.get("how")
        self.value = kw.get("value")
        self.error = kw.get("error")  # "Type: message" of an uncaught exception
        self.tb = kw.get("tb")
        self.fired = kw.get("fired", {})
        self.ops = kw.get("ops", {})
        self.log = kw.get("log", [])
        self.escapes = kw.get("escapes", [])
        self.probes = kw.get("probes", {})
        self.stdout = kw.get("stdout", "")

    @property
    def ok(self):
        return self.how == RETURNED or (self.how == EXITED and self.value in (None, 0))

    def __repr__(self):
        return f"<{self.how} {self.error or self.value!r}>"


PROBES = {}


def probe(name, n=1):
    """Record that a rare condition was reached (counted in the evidence)."""
    PROBES[name] = PROBES.get(name, 0) + n


class _Collect:
    def __init__(self):
        self.parts = []

    def write(self, text):
        self.parts.append(text)
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False


def spawn(fn, *args, root, fs=None, seed=0, limit=None):
    """Run fn(*args) as a simulated process whose disk is `root`; return its Outcome.

    `fs` is the disk plan (see SimFS).  The child starts with a fixed RNG state derived from
    `seed`, which stands for whatever state the interpreter happened to be in.
    """
    sys.stdout.flush()
    read_fd, write_fd = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 70
        try:
            os.close(read_fd)
            outcome = _child(fn, args, root, fs, seed)
            with os.fdopen(write_fd, "wb") as pipe:
                pickle.dump(outcome, pipe, protocol=4)
            status = 0
        except BaseException:
            try:
                os.write(2, traceback.format_exc().encode())
            except Exception:
                pass
        finally:
            os._exit(status)
    os.close(write_fd)
    data = _drain(read_fd, pid, limit or STEP_LIMIT_S)
    if data is None:
        return Outcome(how=HUNG, error=f"no progress within {limit or STEP_LIMIT_S} s")
    if not data:
        return Outcome(how=BROKEN, error="simulated process vanished")
    return pickle.loads(data)


def _drain(fd, pid, limit):
    import select
    import time

    chunks = []
    deadline = time.monotonic() + limit
    hung = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([fd], [], [], left)
        if not ready:
            continue
        chunk = os.read(fd, 1 << 16)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(fd)
    if hung:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return None if hung else b"".join(chunks)


def _child(fn, args, root, fs_plan, seed):
    import h5py
    import numpy as np

    # PyPy's cpyext aborts when a pandas C parser is collected; short-lived processes need no GC.
    gc.disable()
    os.makedirs(root, exist_ok=True)
    os.chdir(root)
    tmp = os.path.join(os.path.realpath(root), ".tmp")
    os.makedirs(tmp, exist_ok=True)
    tempfile.tempdir = tmp
    if "music21" in sys.modules:  # its parse cache lives on the simulated disk too
        from music21 import environment

        environment.Environment()["directoryScratch"] = tmp
    out = _Collect()
    sys.stdout, sys.stderr = out, _Collect()
    root_logger = logging.getLogger()
    root_logger.handlers[:] = [logging.NullHandler()]
    root_logger.setLevel(logging.WARNING)
    logging.raiseExceptions = False
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))
    PROBES.clear()
    disk = SimFS(root, fs_plan)
    disk.install()
    kw = {}
    try:
        kw = {"how": RETURNED, "value": fn(*args)}
    except SimCrash as crash:
        kw = {"how": CRASHED, "error": str(crash)}
    except SystemExit as stop:
        kw = {"how": EXITED, "value": stop.code}
    except BaseException as error:  # noqa: B902 - the outcome of the code under test
        kw = {
            "how": RAISED,
            "error": f"{type(error).__name__}: {error}"[:400],
            "tb": traceback.format_exc()[-4000:],
        }
    if disk.dead:
        if kw["how"] != CRASHED:
            kw = {"how": CRASHED, "error": "crash swallowed by the code under test"}
        h5py.crash_handlers()
    else:
        # interpreter exit: logging shuts down, h5py closes, buffers are flushed
        for handler in list(root_logger.handlers):
            try:
                handler.close()
            except Exception:
                pass
        try:
            h5py.exit_handlers()
        except SimCrash:
            kw = {"how": CRASHED, "error": "crash during exit"}
        try:
            disk.exit_cleanly()
        except SimCrash:
            kw = {"how": CRASHED, "error": "crash during exit"}
    disk.uninstall()
    kw.update(
        fired=disk.fired, ops=disk.ops, log=disk.log, escapes=disk.escapes,
        probes=dict(PROBES), stdout="".join(out.parts)[-20000:],
    )
    try:
        pickle.dumps(kw, protocol=4)
    except Exception as error:
        kw["value"] = None
        kw["how"] = BROKEN
        kw["error"] = f"unpicklable result: {error}"
    return Outcome(**kw)


def run_script(path, argv):
    """`python <path> <argv>` inside the current simulated process."""
    old = sys.argv
    sys.argv = [path] + [str(a) for a in argv]
    try:
        runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv = old
    return None
