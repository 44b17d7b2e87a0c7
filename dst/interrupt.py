"""Failures between two steps of the code under test, and pristine forks.

`steps(fn)` counts the line steps fn takes inside the repository; `fail_at(fn, n, error)` runs
it again and raises `error` at the n-th step: an allocation failure, a user's interrupt or a
time-out that strikes there and nowhere else.
"""
import os
import pickle
import sys
import traceback

from dst.boot import REPO

PREFIX = os.path.join(os.path.realpath(REPO), "harmonic_inference") + os.sep


class _Tracer:
    def __init__(self, at=None, error=None):
        self.count, self.at, self.error, self.fired = 0, at, error, False
        self.known = {}

    def ours(self, code):
        flag = self.known.get(code)
        if flag is None:
            flag = self.known[code] = os.path.realpath(code.co_filename).startswith(PREFIX)
        return flag

    def call(self, frame, event, arg):
        if not self.ours(frame.f_code):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.at is not None and self.count > self.at and not self.fired:
                self.fired = True
                raise self.error
        return self.line


def _run(fn, tracer):
    old = sys.gettrace()
    sys.settrace(tracer.call)
    try:
        return fn()
    finally:
        sys.settrace(old)


def fail_at(fn, at, error):
    """Run fn, raising `error` at its at-th line step.  Returns (fired, value or exception)."""
    tracer = _Tracer(at, error)
    try:
        return tracer.fired, ("ok", _run(fn, tracer))
    except BaseException as caught:  # noqa: B902
        if caught.__class__.__name__ == "SimCrash":
            raise
        return tracer.fired, ("error", caught)


def steps(fn):
    tracer = _Tracer()
    _run(fn, tracer)
    return tracer.count


def pristine(fn):
    """fn() evaluated in a fork: its value, and no trace of it in this process."""
    read_fd, write_fd = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 70
        try:
            os.close(read_fd)
            try:
                value = ("ok", fn())
            except BaseException as error:  # noqa: B902
                value = ("error", f"{type(error).__name__}: {error}"[:400],
                         traceback.format_exc()[-2000:])
            blob = pickle.dumps(value, protocol=4)
            view = memoryview(blob)
            while view:
                view = view[os.write(write_fd, view):]
            status = 0
        except BaseException:  # noqa: B902
            os.write(2, traceback.format_exc().encode())
        finally:
            os._exit(status)
    os.close(write_fd)
    chunks = []
    while True:
        chunk = os.read(read_fd, 1 << 16)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(read_fd)
    os.waitpid(pid, 0)
    if not chunks:
        raise RuntimeError("pristine evaluation vanished")
    return pickle.loads(b"".join(chunks))
