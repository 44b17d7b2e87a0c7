"""The simulated disk.

Files live in a private scratch directory, but every byte moved, every directory listed and
every name changed by the code under test passes through here, where the run's plan decides
what happens: listing order, read errors, short reads and writes, full disk, and a crash
before, inside or after any operation.

Crash model: the process dies (kill -9, power button of a laptop that then syncs): bytes
already handed to the kernel survive, bytes still in user-space buffers are lost, and nothing
the dying process does afterwards (finally blocks, close, rename) reaches the disk.
"""
import _io
import builtins
import errno
import io
import os
import pathlib
import shutil

MUTATORS = ("open_w", "write", "mkdir", "rename", "remove", "rmdir", "chmod", "truncate")


class SimCrash(BaseException):
    """The simulated process died here."""


ERRNO = {
    "eio": errno.EIO,
    "enospc": errno.ENOSPC,
    "eacces": errno.EACCES,
    "enoent": errno.ENOENT,
    "emfile": errno.EMFILE,
}


class Fault:
    """One fault: fires at the `at`-th operation among those matching (`ops`, `path`)."""

    def __init__(self, spec):
        self.kind = spec["kind"]  # crash | torn | eio | enospc | eacces | enoent | emfile
        self.ops = tuple(spec["ops"])
        self.path = spec.get("path")  # substring of the relative path, or None
        self.at = int(spec.get("at", 0))
        self.keep = spec.get("keep", 0)  # torn: bytes kept (modulo the write's size)
        self.sticky = bool(spec.get("sticky", False))  # keeps failing from then on
        self.seen = 0
        self.fired = 0

    def match(self, op, rel):
        if op not in self.ops:
            return False
        if self.path is not None and self.path not in rel:
            return False
        index = self.seen
        self.seen += 1
        if index == self.at or (self.sticky and index > self.at):
            self.fired += 1
            return True
        return False


class SimRaw(io.RawIOBase):
    def __init__(self, fs, real, rel, readable, writable):
        self._fs, self._real, self._rel = fs, real, rel
        self._r, self._w = readable, writable
        self.name = real.name
        self.mode = real.mode

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("simulated file has no descriptor")

    def isatty(self):
        return False

    def seek(self, offset, whence=0):
        return self._real.seek(offset, whence)

    def tell(self):
        return self._real.tell()

    def truncate(self, size=None):
        if self._fs.dead:
            return 0
        return self._real.truncate(self._real.tell() if size is None else size)

    def readinto(self, buf):
        fault = self._fs.op("read", self._rel)
        view = memoryview(buf).cast("B")
        limit = len(view)
        if fault is None and self._fs.short_reads and limit > 1:
            limit = 1 + self._fs.choose(limit, "short_read")
        data = self._real.read(limit)
        view[: len(data)] = data
        return len(data)

    def write(self, data):
        data = bytes(data)
        if self._fs.dead:
            return len(data)  # the process is gone; nothing reaches the disk
        fault = self._fs.op(
            "write", self._rel, size=len(data), torn=lambda keep: self._real.write(data[:keep])
        )
        limit = len(data)
        if fault is None and self._fs.short_writes and limit > 1:
            limit = 1 + self._fs.choose(limit, "short_write")
        self._real.write(data[:limit])
        self._fs.written += limit
        return limit

    def close(self):
        if not self.closed:
            super().close()
            self._real.close()


class SimFS:
    """Installed in a (forked) simulated process; `root` is the only writable place."""

    def __init__(self, root, plan=None):
        plan = plan or {}
        self.root = os.path.realpath(root)
        self.faults = [Fault(f) for f in plan.get("faults", [])]
        self.listing = list(plan.get("listing", []))  # decisions for directory order
        self.schedule = list(plan.get("schedule", []))  # decisions for short transfers
        self.short_reads = bool(plan.get("short_reads"))
        self.short_writes = bool(plan.get("short_writes"))
        self.buffer = int(plan.get("buffer", 8192))
        self.dead = False
        self.ops = {}
        self.log = []
        self.fired = {}
        self.escapes = []
        self.written = 0
        self._lpos = 0
        self._spos = 0
        self._open = []
        self._saved = []

    # -- decisions -------------------------------------------------------------------
    def choose(self, n, what):
        if self._spos < len(self.schedule):
            value = self.schedule[self._spos]
        else:
            value = (self._spos * 7919 + 13) if self.schedule else n - 1
        self._spos += 1
        self.fired[what] = self.fired.get(what, 0) + 1
        return value % n

    def permute(self, names):
        """Directory order: a Fisher-Yates shuffle of the sorted names, driven by the plan."""
        names = sorted(names)
        if not self.listing:
            return names
        out = []
        while names:
            value = self.listing[self._lpos % len(self.listing)]
            self._lpos += 1
            out.append(names.pop(value % len(names)))
        if out != sorted(out):
            self.fired["listing_order"] = self.fired.get("listing_order", 0) + 1
        return out

    # -- bookkeeping -----------------------------------------------------------------
    def rel(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        full = os.path.normpath(os.path.join(os.getcwd(), path))
        if full == self.root:
            return "."
        if full.startswith(self.root + os.sep):
            return full[len(self.root) + 1 :]
        return None

    def op(self, op, rel, size=None, torn=None):
        """Count an operation; raise whatever fault the plan put here."""
        if self.dead:
            raise SimCrash(f"dead process touched {op} {rel}")
        self.ops[op] = self.ops.get(op, 0) + 1
        if len(self.log) < 4000:
            self.log.append(f"{op} {rel}" + (f" {size}" if size is not None else ""))
        for fault in self.faults:
            if fault.match(op, rel or ""):
                self.fired[fault.kind] = self.fired.get(fault.kind, 0) + 1
                self.log.append(f"!! {fault.kind} at {op} {rel}")
                if fault.kind in ("crash", "torn"):
                    if fault.kind == "torn" and torn is not None:
                        torn(fault.keep % (size + 1))  # a prefix of the block reached the disk
                    self.dead = True
                    raise SimCrash(f"{fault.kind} at {op} {rel}")
                code = ERRNO[fault.kind]
                raise OSError(code, os.strerror(code), rel)
        return None

    # -- patched entry points --------------------------------------------------------
    def _sim_open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                  closefd=True, opener=None):
        if isinstance(file, int):
            return self._real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        rel = self.rel(file)
        writing = any(c in mode for c in "wax+")
        if rel is not None and _private(rel):
            return self._real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if rel is None:
            if writing and os.fspath(file) not in (os.devnull, os.fsencode(os.devnull)):
                self.escapes.append(str(file))
                raise PermissionError(errno.EPERM, "simulated disk: outside the scratch", str(file))
            return self._real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.op("open_w" if writing else "open_r", rel)
        raw_mode = mode.replace("t", "").replace("b", "").replace("U", "")
        real = self._real_fileio(os.fspath(file), raw_mode or "r")
        raw = SimRaw(
            self, real, rel, "r" in raw_mode or "+" in raw_mode,
            any(c in raw_mode for c in "wax+"),
        )
        binary = "b" in mode
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = self.buffer if buffering in (-1, 1) else buffering
        if "+" in raw_mode:
            buf = _io.BufferedRandom(raw, size)
        elif raw.writable():
            buf = _io.BufferedWriter(raw, size)
        else:
            buf = _io.BufferedReader(raw, size)
        if binary:
            self._open.append(buf)
            return buf
        text = _io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
        text.mode = mode
        self._open.append(text)
        return text

    def _wrap_path_op(self, op, real, nargs=1, index=0):
        def wrapped(*args, **kwargs):
            rels = []
            for arg in args[:nargs]:
                if isinstance(arg, int):
                    return real(*args, **kwargs)
                rels.append(self.rel(arg))
            if self.dead:
                return None
            if any(r is None for r in rels):
                self.escapes.append(str(args[:nargs]))
                raise PermissionError(errno.EPERM, "simulated disk: outside the scratch", str(args[0]))
            if all(_private(r) for r in rels):
                return real(*args, **kwargs)
            self.op(op, rels[index] if nargs == 1 else f"{rels[0]} -> {rels[1]}")
            return real(*args, **kwargs)

        return wrapped

    def _sim_listdir(self, path="."):
        rel = self.rel(path)
        if rel is None:
            return self._real_listdir(path)
        self.op("list", rel)
        return self.permute(self._real_listdir(path))

    def _sim_scandir(self, path="."):
        rel = self.rel(path)
        if rel is None:
            return self._real_scandir(path)
        self.op("list", rel)
        with self._real_scandir(path) as it:
            entries = {entry.name: entry for entry in it}
        return _ScanDir([entries[name] for name in self.permute(entries)])

    # -- install / remove ------------------------------------------------------------
    def _patch(self, obj, name, value):
        self._saved.append((obj, name, obj.__dict__[name] if isinstance(obj, type) else getattr(obj, name)))
        setattr(obj, name, value)

    def install(self):
        self._real_open = io.open
        self._real_fileio = _io.FileIO
        self._real_listdir = os.listdir
        self._real_scandir = os.scandir
        self._patch(builtins, "open", self._sim_open)
        self._patch(io, "open", self._sim_open)
        self._patch(os, "listdir", self._sim_listdir)
        self._patch(os, "scandir", self._sim_scandir)
        wrapped = {}
        for name, op, nargs in (
            ("mkdir", "mkdir", 1),
            ("rename", "rename", 2),
            ("replace", "rename", 2),
            ("remove", "remove", 1),
            ("unlink", "remove", 1),
            ("rmdir", "rmdir", 1),
            ("chmod", "chmod", 1),
            ("truncate", "truncate", 1),
            ("link", "rename", 2),
            ("symlink", "rename", 2),
        ):
            wrapped[name] = self._wrap_path_op(op, getattr(os, name), nargs)
            self._patch(os, name, wrapped[name])
        accessor = getattr(pathlib, "_NormalAccessor", None)
        if accessor is not None:
            for name, value in dict(wrapped, listdir=self._sim_listdir,
                                    scandir=self._sim_scandir).items():
                if name in accessor.__dict__ and name not in ("symlink", "link"):
                    self._patch(accessor, name, staticmethod(value))
        # Copies must go through the simulated files, not a descriptor fast path.
        for name in ("_USE_CP_SENDFILE", "_HAS_FCOPYFILE", "_USE_CP_COPY_FILE_RANGE"):
            if hasattr(shutil, name):
                self._patch(shutil, name, False)
        if hasattr(shutil, "copystat"):
            self._patch(shutil, "copystat", lambda *a, **k: None)
            self._patch(shutil, "copymode", lambda *a, **k: None)

    def uninstall(self):
        for obj, name, value in reversed(self._saved):
            setattr(obj, name, value)
        self._saved = []

    def exit_cleanly(self):
        """Interpreter exit: open files are flushed and closed (errors are swallowed)."""
        for handle in self._open:
            try:
                handle.close()
            except (OSError, ValueError):
                pass
        self._open = []


def _private(rel):
    """The library's own temporary files (music21's parse cache): real, fault-free, unlogged."""
    return rel == ".tmp" or rel.startswith(".tmp" + os.sep)


class _ScanDir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *_exc):
        return False

    def close(self):
        pass
