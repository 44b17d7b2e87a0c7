"""Stand-in for h5py: the subset harmonic-inference uses, stored as ordinary files.

A file is a header, one record per dataset, and a trailer written by close().  All bytes go
through builtins.open, which the simulator owns, so short writes, full disks, read errors and
crashes reach it like any other file.  Modelled behaviour of the real library:
  * a file whose process died before close() cannot be opened (OSError);
  * a file object left open when an exception ends the process normally is closed at exit,
    i.e. it becomes a readable file holding only the datasets created so far
    (the simulator calls `exit_handlers()` at simulated process exit);
  * reading a dataset allocates memory, which may fail (ON_READ seam).
"""
import builtins
import io
import os

import numpy as np

MAGIC = b"SIMH5\n"
TRAILER = b"ENDH5\n"

# Seam: callable(path, key, dtype) invoked before a dataset's data are materialised.
ON_READ = None
_OPEN = []


def exit_handlers():
    """What h5py does at interpreter exit: close every file that is still open."""
    for handle in list(_OPEN):
        try:
            handle.close()
        except Exception:
            pass
    del _OPEN[:]


def crash_handlers():
    """The process died: nothing runs."""
    for handle in _OPEN:
        handle._fh = None
    del _OPEN[:]


class Dataset:
    def __init__(self, owner, key, data):
        self._owner, self._key, self._data = owner, key, data

    @property
    def shape(self):
        return self._data.shape

    @property
    def dtype(self):
        return self._data.dtype

    @property
    def size(self):
        return self._data.size

    @property
    def ndim(self):
        return self._data.ndim

    def _check(self, dtype=None):
        if not self._owner:
            raise ValueError("Not a dataset (not a dataset)")
        if ON_READ is not None:
            ON_READ(str(self._owner.filename), self._key, dtype)

    def __len__(self):
        if self._data.ndim == 0:
            raise TypeError("Attempt to take len() of scalar dataset")
        return len(self._data)

    def __getitem__(self, item):
        self._check()
        if isinstance(item, (int, np.integer)) and not -len(self._data) <= item < len(self._data):
            raise ValueError(f"Index ({item}) out of range (0-{len(self._data) - 1})")
        out = self._data[item]
        return out.copy() if isinstance(out, np.ndarray) else out

    def astype(self, dtype):
        return np.asarray(self).astype(dtype)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __array__(self, dtype=None):
        self._check(dtype)
        return self._data.astype(dtype) if dtype is not None else self._data.copy()


class File:
    def __init__(self, name, mode="r", **_kwargs):
        self.filename = str(name)
        self.mode = mode
        self._sets = {}
        self._fh = None
        self._valid = False
        if mode in ("w-", "x"):
            if os.path.exists(name):
                raise OSError("Unable to create file (file exists)")
            mode = self.mode = "w"
        if mode == "a" and not os.path.exists(name):
            mode = self.mode = "w"
        if mode == "w":
            self._fh = builtins.open(name, "wb")
            self._fh.write(MAGIC)
            self._valid = True
            _OPEN.append(self)
        elif mode in ("r", "r+", "a"):
            with builtins.open(name, "rb") as handle:
                blob = handle.read()
            if not blob.startswith(MAGIC):
                raise OSError("Unable to open file (file signature not found)")
            if not blob.endswith(TRAILER):
                raise OSError("Unable to open file (truncated file)")
            stream = io.BytesIO(blob[len(MAGIC) : -len(TRAILER)])
            while True:
                key = stream.readline()
                if not key:
                    break
                self._sets[key.decode()[:-1]] = np.load(stream, allow_pickle=False)
            self._valid = True
            if mode != "r":  # open for changes: unreadable until it is closed
                self.mode = "w"
                self._fh = builtins.open(name, "r+b")
                self._fh.seek(len(blob) - len(TRAILER))
                self._fh.truncate()
                _OPEN.append(self)
        else:
            raise ValueError(f"Invalid mode; must be one of r, r+, w, w-, x, a ({mode})")

    def __bool__(self):
        return self._valid

    def __enter__(self):
        return self

    def __exit__(self, *_exc):
        self.close()
        return False

    def __repr__(self):
        return f'<HDF5 file "{self.filename}" (mode {self.mode})>'

    def keys(self):
        return self._sets.keys()

    def values(self):
        return [self[key] for key in self._sets]

    def items(self):
        return [(key, self[key]) for key in self._sets]

    def get(self, key, default=None):
        return self[key] if key in self._sets else default

    def __len__(self):
        return len(self._sets)

    def __setitem__(self, key, data):
        self.create_dataset(key, data=data)

    def __contains__(self, key):
        return key in self._sets

    def __iter__(self):
        return iter(self._sets)

    def __getitem__(self, key):
        if not self._valid:
            raise ValueError("Invalid location identifier (invalid location identifier)")
        if key not in self._sets:
            raise KeyError(f"Unable to open object (object '{key}' doesn't exist)")
        return Dataset(self, key, self._sets[key])

    def create_dataset(self, name, data=None, compression=None, **_kwargs):
        if self.mode != "w" or not self._valid:
            raise ValueError("Unable to create dataset (no write intent on file)")
        data = np.asarray(data)
        if data.dtype.kind not in "biuf":
            raise TypeError(f"No conversion path for dtype: {data.dtype!r}")
        if data.ndim == 0 and compression:
            raise TypeError("Scalar datasets don't support chunk/filter options")
        if name in self._sets:
            raise ValueError("Unable to create dataset (name already exists)")
        buf = io.BytesIO()
        np.save(buf, np.ascontiguousarray(data), allow_pickle=False)
        self._fh.write(name.encode() + b"\n" + buf.getvalue())
        self._fh.flush()
        self._sets[name] = data
        return Dataset(self, name, data)

    def flush(self):
        if self._fh is not None:
            self._fh.flush()

    def close(self):
        if not self._valid:
            return
        self._valid = False
        if self in _OPEN:
            _OPEN.remove(self)
        if self.mode == "w" and self._fh is not None:
            fh, self._fh = self._fh, None
            try:
                fh.write(TRAILER)
            finally:
                fh.close()
