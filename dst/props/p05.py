"""P05: a data set reloaded from its file, in memory or too large for it, equals the original."""
import os

from dst import dataref
from dst.common import ASSUME_DISK, ASSUME_PY, STUB_DISK, STUB_H5, STUB_TORCH, rand_disk
from dst.interrupt import fail_at
from dst.kernel import Invalid
from dst.proc import probe
from dst.props.p03 import write_corpus
from dst.props.p04 import rand_pieces, usable

PROPERTY = "P05"
BUDGET = {
    "quick": {"runs": 180, "wall_s": 420},
    "thorough": {"runs": 6000, "wall_s": 3300},
}
RULE = (
    "one run = a data set of 1-4 generated pieces saved by one simulated process and reloaded by others with "
    "seeded chunk sizes, memory pressure (allocation failure at a seeded read or step), short reads, read "
    "errors, and copies of copies; every item is compared with a reference computed from the pieces; "
    "non-trivial = a fault fired or a chunk boundary was crossed"
)
REAL = ["to_h5, pad, pad_array", "h5_to_dataset", "__getitem__ of all five data set classes"]
STUBS = [STUB_TORCH, STUB_H5, STUB_DISK]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY, "inputs are compared in half precision (the stored precision)"]


def generate(rng, tier, index):
    name = rng.choice(dataref.CLASSES)
    reloads = []
    for _ in range(rng.randint(1, 3)):
        memory = None
        if rng.random() < 0.6:
            memory = {"how": rng.choice(["read", "read", "step"]), "at": rng.randrange(1 << 12)}
        fault = None
        if rng.random() < 0.2:
            fault = {"kind": rng.choice(["eio", "eacces", "enoent"]), "at": rng.randrange(8),
                     "sticky": rng.random() < 0.3}
        reloads.append({"chunk": rng.choice([1, 2, 3, 1024]), "memory": memory, "fault": fault,
                        "tensor": rng.randrange(2), "disk": rand_disk(rng), "save": rng.randrange(2),
                        "options": dataref.rand_options(rng, name),
                        "order": [rng.randrange(64) for _ in range(6)]})
    return {"pieces": rand_pieces(rng, 4), "name": name, "reloads": reloads,
            "twice": rng.randrange(2), "disk": rand_disk(rng)}


def save(plan):
    from harmonic_inference.data import datasets

    pieces = dataref.load_annotated(plan["pieces"])
    made = getattr(datasets, plan["name"])(pieces)
    references = []
    for reload in plan["reloads"]:
        references.append(dataref.reference(plan["name"], pieces, dataref.kwargs(reload["options"])))
    if not len(made):
        return None
    ids = [7 * i + 3 for i in range(len(pieces))]
    made.to_h5("data/gen0.h5", file_ids=ids)
    if plan["twice"]:
        made.to_h5("data/gen0.h5", file_ids=ids)
    return references


def reload_and_read(plan, reload, path, new_path, want):
    import h5py
    import torch

    from harmonic_inference.data import datasets

    cls = getattr(datasets, plan["name"])
    cls.chunk_size = reload["chunk"]
    opts = dataref.kwargs(reload["options"])
    memory = reload["memory"]
    reads = [0]

    def pressure(_path, key, _dtype):
        if key not in ("inputs", "targets", "key_change_replacements"):
            return  # a handful of integers
        reads[0] += 1
        if memory and memory["how"] == "read" and reads[0] == 1 + memory["at"] % 6:
            probe("out_of_memory")
            raise MemoryError("simulated")

    def load():
        return datasets.h5_to_dataset(path, cls, dataset_kwargs=opts,
                                      transform=torch.from_numpy if reload["tensor"] else None)

    h5py.ON_READ = pressure
    if memory and memory["how"] == "step":
        _, (how, made) = fail_at(load, memory["at"] % 160, MemoryError("simulated"))
        if how == "error":
            raise made
        probe("out_of_memory")
    else:
        made = load()
    h5py.ON_READ = None
    probe("in_memory" if made.in_ram else "on_disk")
    if len(want) > reload["chunk"]:
        probe("chunk_boundary")
    if len(made) != len(want):
        return f"{len(made)} items instead of {len(want)}", made.in_ram
    order = list(range(len(want)))
    for k, pick in enumerate(reload["order"]):
        order.insert(0, order.pop((pick + k) % len(order)))
    shapes = set()
    for i in order:
        if want[i]["targets"] is None:
            continue
        try:
            item = made[i]
        except OSError as error:
            probe("item_read_error")
            try:
                item = made[i]
            except OSError:
                raise error
        got = dataref.observed(item)
        shapes.add(got["shape"])
        bad = dataref.difference(got, want[i])
        if bad:
            return f"item {i}: {bad}", made.in_ram
    if len(shapes) > 1:
        return f"items of different shapes cannot be batched: {sorted(shapes)}", made.in_ram
    with h5py.File(path, "r") as handle:
        ids = [int(x) for x in handle["file_ids"]]
    if ids != [7 * i + 3 for i in range(len(plan["pieces"]))]:
        return f"file ids {ids}", made.in_ram
    if reload["save"]:
        made.to_h5(new_path)
        for i in order[:3]:
            if want[i]["targets"] is not None:
                bad = dataref.difference(dataref.observed(made[i]), want[i])
                if bad:
                    return f"after saving a copy, item {i}: {bad}", made.in_ram
    return None, made.in_ram


def execute(ctx, plan):
    if not plan["reloads"] or not usable(plan["pieces"]) or any(not r["chunk"] for r in plan["reloads"]):
        raise Invalid()
    disk = ctx.path("disk")
    write_corpus(os.path.join(disk, "corpus"), plan["pieces"])
    out = ctx.spawn(save, plan, root=disk, fs=plan["disk"])
    ctx.check(out.ok, "save-failed", lambda: f"{out} {out.tb}")
    if out.value is None:
        raise Invalid("empty data set")
    path = "data/gen0.h5"
    for number, (reload, want) in enumerate(zip(plan["reloads"], out.value)):
        fs = dict(reload["disk"])
        if reload["fault"]:
            fs["faults"] = [{"kind": reload["fault"]["kind"], "ops": ["open_r", "read"], "path": "data/",
                             "at": reload["fault"]["at"], "keep": 0, "sticky": reload["fault"]["sticky"]}]
        new_path = f"data/gen{number + 1}.h5"
        seen = ctx.spawn(reload_and_read, plan, reload, path, new_path, want, root=disk, fs=fs)
        if seen.probes.get("out_of_memory"):
            ctx.fault("alloc_failure", seen.probes["out_of_memory"])
        if not seen.ok:
            faulty = bool(reload["fault"] and seen.fired)
            step = bool(reload["memory"] and reload["memory"]["how"] == "step"
                        and str(seen.error).startswith("MemoryError"))
            ctx.check(faulty or step, "reload-failed", lambda: f"{seen} {seen.tb}")
            ctx.probe("reload_refused")
            continue
        ctx.nontrivial |= bool(seen.probes.get("chunk_boundary"))
        ctx.check(seen.value[0] is None, "reloaded-data-differ",
                  lambda: f"{plan['name']} reload {number} "
                          f"({'in memory' if seen.value[1] else 'on disk'}): {seen.value[0]}")
        if reload["save"]:
            path = new_path
