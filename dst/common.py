"""Shared by the property modules: disk plans, table readers, reference results."""
import csv
import io
import os

ASSUME_DISK = (
    "process-crash disk model: bytes written by completed write() calls survive, user-space "
    "buffers are lost, renames are atomic; loss of un-synced kernel buffers (power cut) is not "
    "modelled because the code never syncs and promises nothing about it"
)
ASSUME_PY = (
    "runs on the sandbox's PyPy 3.9 with pandas 1.3.1; sets iterate in insertion order there, so "
    "CPython hash-order effects are outside the simulation"
)
STUB_TORCH = (
    "torch / pytorch_lightning (not installed here): numpy stand-in with seeded random weights, "
    "simulated data-loader workers; no training"
)
STUB_H5 = "h5py (not installed here): stand-in that stores datasets as ordinary simulated files"
STUB_DISK = "disk: scratch directory behind the simulated file system (SimFS)"


def rand_listing(rng):
    """Decisions for directory order: sorted, reversed-ish or arbitrary."""
    style = rng.randrange(4)
    if style == 0:
        return []
    return [rng.randrange(64) for _ in range(rng.randint(1, 12))]


def rand_disk(rng, short=0.3):
    """A fault-free but awkward disk: odd listing order, short transfers, small buffers."""
    plan = {"listing": rand_listing(rng), "faults": [], "buffer": rng.choice([64, 512, 8192])}
    if rng.random() < short:
        plan["short_reads"] = True
        plan["schedule"] = [rng.randrange(4096) for _ in range(8)]
    if rng.random() < short:
        plan["short_writes"] = True
        plan["schedule"] = [rng.randrange(4096) for _ in range(8)]
    return plan


def read_tsv(path):
    """(columns, rows) of a TSV, read by the harness with the csv module."""
    with open(path, newline="", encoding="utf-8") as handle:
        rows = list(csv.reader(io.StringIO(handle.read()), delimiter="\t"))
    return rows[0], rows[1:]


def tree(root):
    """{relative path: bytes} of every file under root, except the private temp folder."""
    out = {}
    for folder, dirs, files in os.walk(root):
        dirs.sort()
        if ".tmp" in dirs:
            dirs.remove(".tmp")
        for name in sorted(files):
            path = os.path.join(folder, name)
            with open(path, "rb") as handle:
                out[os.path.relpath(path, root)] = handle.read()
    return out


def frame_rows(frame):
    """A pandas frame as plain, comparable data: {(index...): {column: text}} in order."""
    if frame is None:
        return None
    columns = list(frame.columns)
    out = []
    for index, row in zip(frame.index, frame.itertuples(index=False, name=None)):
        key = tuple(int(i) for i in index) if isinstance(index, tuple) else (int(index),)
        out.append((key, tuple(norm(v) for v in row)))
    return columns, out


def norm(value):
    text = str(value)
    if text in ("<NA>", "nan", "None", "NaT", ""):
        return ""
    if text.endswith(".0"):
        text = text[:-2]
    return text


def plain(value):
    """Library objects as plain comparable data."""
    import enum

    import numpy as np

    if value is None or isinstance(value, (str, bool)):
        return value
    if isinstance(value, enum.Enum):
        return str(value)
    if isinstance(value, np.generic):
        value = value.item()
    if isinstance(value, np.ndarray):
        value = value.tolist()
    if isinstance(value, (int, float)):
        return repr(value)
    if isinstance(value, dict):
        return {str(plain(k)): plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if hasattr(value, "to_dict"):
        return plain(value.to_dict())
    return str(value)


def describe_piece(piece):
    """Everything a user can read off a piece, as plain data."""
    columns = [c for c in ("mc", "mn", "timesig", "act_dur", "mc_offset", "next")
               if c in piece.measures_df.columns]
    return {
        "name": piece.name,
        "notes": [plain(n) for n in piece.get_inputs()],
        "chords": None if piece.get_chords() is None else [plain(c) for c in piece.get_chords()],
        "keys": None if piece.get_keys() is None else [plain(k) for k in piece.get_keys()],
        "chord_changes": plain(piece.get_chord_change_indices()),
        "chord_ranges": plain(piece.get_chord_ranges()),
        "key_changes": plain(piece.get_key_change_indices()),
        "measures": [[norm(v) for v in row] for row in
                     piece.measures_df[columns].itertuples(index=False, name=None)],
    }


def first_difference(got, want, path=""):
    """Where two plain values differ first."""
    if type(got) is not type(want):
        return f"{path}: {str(got)[:200]} instead of {str(want)[:200]}"
    if isinstance(got, dict):
        for key in sorted(set(got) | set(want), key=str):
            if key not in got or key not in want:
                return f"{path}.{key}: {'missing' if key not in got else 'unexpected'}"
            if got[key] != want[key]:
                return first_difference(got[key], want[key], f"{path}.{key}")
    if isinstance(got, (list, tuple)):
        if len(got) != len(want):
            return f"{path}: {len(got)} entries instead of {len(want)}"
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return first_difference(a, b, f"{path}[{i}]")
    return f"{path}: {str(got)[:200]} instead of {str(want)[:200]}"
