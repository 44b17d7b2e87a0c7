"""P06: a data set save that is killed or fails never passes for a good one."""
import os

from dst import dataref
from dst.common import ASSUME_DISK, ASSUME_PY, STUB_DISK, STUB_H5, STUB_TORCH, rand_disk
from dst.interrupt import fail_at
from dst.kernel import Invalid
from dst.proc import probe
from dst.props.p03 import write_corpus
from dst.props.p04 import rand_pieces, usable

PROPERTY = "P06"
BUDGET = {
    "quick": {"runs": 200, "wall_s": 420},
    "thorough": {"runs": 6000, "wall_s": 3300},
}
RULE = (
    "one run = a data set file (absent, or an older version) and 1-3 saves over it, each hit by a seeded "
    "crash, torn write, full disk, write error or allocation failure, from memory or as a copy of a reloaded "
    "set; after each the file is reloaded; it must be refused, or be the older or the newer version in full; "
    "non-trivial = a fault fired"
)
REAL = ["to_h5 (writing and copying)", "h5_to_dataset", "all five data set classes"]
STUBS = [STUB_TORCH, STUB_H5, STUB_DISK]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY,
               "a file whose writer died before closing it cannot be opened; one closed while unwinding an "
               "error holds the data sets created so far (behaviour of the h5py stand-in)"]
MUTATING = ["open_w", "write", "mkdir", "rename", "remove", "truncate", "chmod"]


def generate(rng, tier, index):
    attempts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        attempts.append({"kind": rng.choice(["crash", "crash", "torn", "enospc", "eio", "eacces", "step", "step", "step"]),
                         "at": rng.randrange(1 << 12), "keep": rng.randrange(1 << 12),
                         "sticky": rng.random() < 0.5, "copy": int(rng.random() < 0.35),
                         "again": int(rng.random() < 0.5),
                         "disk": rand_disk(rng, short=0.15)})
    return {"pieces": rand_pieces(rng, 4), "split": rng.randint(0, 3), "name": rng.choice(dataref.CLASSES),
            "attempts": attempts}


def prepare(plan, count):
    """Reference items of the older version (first pieces) and of the newer one (all pieces)."""
    from harmonic_inference.data import datasets

    pieces = dataref.load_annotated(plan["pieces"])
    cls = getattr(datasets, plan["name"])
    made = cls(pieces)
    if not len(made):
        return None
    made.to_h5("source.h5", file_ids=ids(len(pieces), 1))
    old = None
    if count and len(cls(pieces[:count])):
        cls(pieces[:count]).to_h5("data/set.h5", file_ids=ids(count, 5))
        old = dataref.reference(plan["name"], pieces[:count], {})
    return old, dataref.reference(plan["name"], pieces, {}), pieces


def ids(n, k):
    return [k * i + k for i in range(n)]


def save(plan, pieces, copying, step, again=0):
    """Save the data set; `again`: a failure is answered by saving the same one once more."""
    from harmonic_inference.data import datasets

    cls = getattr(datasets, plan["name"])
    if copying:
        made = datasets.h5_to_dataset("source.h5", cls)
    else:
        made = cls(pieces)

    def run():
        made.to_h5("data/set.h5", file_ids=ids(len(plan["pieces"]), 1))

    if step is None:
        try:
            run()
        except OSError:
            if not again:
                raise
            run()
        return None
    _, (how, value) = fail_at(run, step, MemoryError("simulated"))
    if how == "error" and again:
        probe("saved_again")
        try:
            run()
        except Exception as error:
            return f"{type(error).__name__}: {error}"
    elif how == "error":
        raise value
    return None


def look(name, old, new):
    """Which version does the file hold?"""
    import h5py

    from harmonic_inference.data import datasets

    made = datasets.h5_to_dataset("data/set.h5", getattr(datasets, name))
    with h5py.File("data/set.h5", "r") as handle:
        found = [int(x) for x in handle["file_ids"]] if "file_ids" in handle else None
    complaints = []
    for which, want, k in (("old", old, 5), ("new", new, 1)):
        if want is None:
            continue
        if len(made) != len(want):
            complaints.append(f"{which}: {len(made)} items instead of {len(want)}")
            continue
        bad = next((f"item {i}: {b}" for i, w in enumerate(want) for b in
                    [dataref.difference(dataref.observed(made[i]), w)] if b), None)
        if bad is None and found is None:
            raise KeyError("file_ids")  # the items are complete; who needs the ids is refused
        if bad is None and found != ids(len(found), k):
            bad = f"file ids {found}"
        if bad is None:
            return which
        complaints.append(f"{which}: {bad}")
    return complaints


def execute(ctx, plan):
    if not plan["attempts"] or not usable(plan["pieces"]):
        raise Invalid()
    count = min(plan["split"], len(plan["pieces"]) - 1)
    disk = ctx.path("disk")
    write_corpus(os.path.join(disk, "corpus"), plan["pieces"])
    out = ctx.spawn(prepare, plan, count, root=disk)
    ctx.check(out.ok, "save-failed", lambda: f"{out} {out.tb}")
    if out.value is None:
        raise Invalid("empty data set")
    old, new, pieces = out.value
    target = os.path.join(disk, "data", "set.h5")
    import shutil

    for number, attempt in enumerate(plan["attempts"]):
        kind, step, fault = attempt["kind"], None, None
        if kind == "step":
            step = attempt["at"] % 70
        else:
            counted = ctx.path("count")
            shutil.rmtree(counted, ignore_errors=True)
            shutil.copytree(disk, counted)
            dry = ctx.spawn(save, plan, pieces, attempt["copy"], None, root=counted,
                            fs=dict(attempt["disk"], faults=[]))
            ctx.check(dry.ok, "save-failed", lambda: f"{dry} {dry.tb}")
            ops = MUTATING if kind in ("crash", "torn") else ["open_w", "write", "rename", "mkdir"]
            total = sum(dry.ops.get(op, 0) for op in ops)
            fault = {"kind": kind, "ops": ops, "at": attempt["at"] % total, "path": None,
                     "keep": attempt["keep"],
                     "sticky": attempt["sticky"] and kind not in ("crash", "torn")}
        out = ctx.spawn(save, plan, pieces, attempt["copy"], step, attempt["again"], root=disk,
                        fs=dict(attempt["disk"], faults=[fault] if fault else []))
        if step is not None and (not out.ok or out.probes.get("saved_again")):
            ctx.fault("alloc_failure")
        what = f"{'copy' if attempt['copy'] else 'save'} {number} with {kind}"
        seen = None
        if os.path.exists(target):
            seen = ctx.spawn(look, plan["name"], old, new, root=disk)
        if out.ok:
            ctx.check(out.value is None, "retry-failed", lambda: f"{what}: saving once more gave {out.value}")
            ctx.check(seen is not None and seen.ok, "success-but-unusable",
                      lambda: f"{what}: reported success, the file is {seen and seen.error}")
            ctx.check(seen.value == "new", "success-but-wrong", lambda: f"{what}: file holds {seen.value}")
        elif seen is None or not seen.ok:
            ctx.probe("refused")
        else:
            ctx.check(seen.value in ("old", "new"), "partial-file-accepted",
                      lambda: f"{what} ended with {out.error or out.how}; the file loads: {seen.value}")
            ctx.probe("whole_version")
    out = ctx.spawn(save, plan, pieces, 0, None, root=disk)
    ctx.check(out.ok, "retry-failed", lambda: f"{out} {out.tb}")
    seen = ctx.spawn(look, plan["name"], old, new, root=disk)
    ctx.check(seen.ok and seen.value == "new", "retry-wrong", lambda: f"{seen} {seen.tb}")
