"""P24: a training run fits the model it was asked for, on exactly its own split."""
import json
import os

from dst import dataref
from dst.boot import REPO
from dst.common import ASSUME_PY, STUB_DISK, STUB_H5, STUB_TORCH, rand_disk
from dst.kernel import Invalid
from dst.proc import probe, run_script
from dst.props.p03 import write_corpus
from dst.props.p04 import rand_pieces, usable
from dst.props.p17 import favour, one_by_one

PROPERTY = "P24"
BUDGET = {
    "quick": {"runs": 150, "wall_s": 420},
    "thorough": {"runs": 6000, "wall_s": 3300},
}
RULE = (
    "one run = data sets of every split for two random seeds, stored from 2-6 generated pieces, and train.py for "
    "one of the six neural models (or the ids of its pieces and the initial-chord prior) with seeded options, "
    "learning rate, places and worker count, over a disk with seeded read errors, missing or cut-off files and memory shortage; the trainer's place is taken by one that "
    "runs 1-2 epochs with seeded shuffles and worker interleavings and records every item, loss and accuracy, all "
    "compared with a reference computed from the pieces; non-trivial = a fault fired or several workers ran"
)
REAL = ["train.py", "load_kwargs_from_json", "h5_to_dataset and the five data set classes",
        "training_step and validation_step of the six models", "load_pieces and train_icm"]
STUBS = [STUB_TORCH, STUB_H5, STUB_DISK, "pytorch_lightning.Trainer: loops over the loaders, no gradients"]
ASSUMPTIONS = [ASSUME_PY, "losses as torch documents them (numpy stand-in)",
               "losses of the pitch-based sequence model are not compared"]
KINDS = {"ccm": ("SimpleChordClassifier", "ChordClassificationDataset"),
         "ctm": ("SimpleChordTransitionModel", "ChordTransitionDataset"),
         "csm": ("SimpleChordSequenceModel", "ChordSequenceDataset"),
         "csm-p": ("PitchBasedChordSequenceModel", "ChordSequenceDataset"),
         "ktm": ("SimpleKeyTransitionModel", "KeyTransitionDataset"),
         "ksm": ("SimpleKeySequenceModel", "KeySequenceDataset"),
         "icm": (None, "ChordTransitionDataset")}
SMALL = {"ccm": {"lstm_hidden_dim": 4, "hidden_dim": 4}}
TYPES = ["MAJOR", "MINOR", "DIMINISHED", "AUGMENTED", "MAJ_MAJ7", "MAJ_MIN7", "MIN_MAJ7", "MIN_MIN7", "DIM7",
         "HALF_DIM7", "AUG_MIN7", "AUG_MAJ7"]
TRIAD = dict(zip(TYPES, ["MAJOR", "MINOR", "DIMINISHED", "AUGMENTED", "MAJOR", "MAJOR", "MINOR", "MINOR",
                         "DIMINISHED", "DIMINISHED", "AUGMENTED", "AUGMENTED"]))
NAMES = {"use_inversions_input": "use_input_inversions", "use_inversions_output": "use_output_inversions"}


def generate(rng, tier, index):
    kind = rng.choice(list(KINDS))
    stored = [rng.randrange(2) for _ in range(4)]
    options = dataref.rand_options(rng, KINDS[kind][1])
    options.pop("pitch_based", None)
    if options.get("transposition_range"):
        options["transposition_range"] = rng.choice([[0, 0], [-1, 1], [-7, 7], [0, 2]])
    pieces = rand_pieces(rng, 6) + rand_pieces(rng, 1)
    if kind == "ksm":
        for piece in pieces:
            piece["keys"], piece["chords"], piece["measures"] = rng.randint(1, 3), 4, rng.randint(2, 4)
    fault = None
    if rng.random() < 0.45:
        fault = {"kind": rng.choice(["eio", "eacces", "enoent", "emfile", "missing", "torn", "missing", "torn"]),
                 "file": rng.choice(["train", "valid", "json"]), "at": rng.randrange(6),
                 "sticky": rng.random() < 0.4}
    return {"kind": kind, "options": options if rng.random() < 0.8 else None, "pieces": pieces,
            "share": [rng.randrange(6) for _ in pieces], "seed": rng.choice([None, 0, 3]),
            "lr": rng.choice([None, 0.1, 0.0005]), "workers": rng.choice([None, 0, 1, 2, 3]),
            "where": rng.choice([None, "my runs"]), "h5": rng.choice([None, "my data"]),
            "resume": rng.choice([None, None, "old run/a.ckpt"]), "fault": fault, "disk": rand_disk(rng, short=0.2),
            "memory": {"at": rng.randrange(6), "steps": rng.randrange(3)} if rng.random() < 0.3 else None,
            "stored": stored, "epochs": rng.choice([1, 1, 2]), "batch": rng.choice([None, 2, 3, 5]),
            "schedule": [rng.randrange(60) for _ in range(12)], "favour": rng.choice([0, 4, 16])}


def options_of(plan):
    """(keyword arguments of the data set, options file of the model)"""
    kind = plan["kind"]
    if plan["options"] is None:
        return ({"pitch_based": True} if kind == "csm-p" else {}), None
    opts = dataref.kwargs(plan["options"])
    if kind == "csm-p":  # always gives all pitches of a chord
        opts.pop("output_reduction", None)
        opts.pop("use_inversions_output", None)
    written = dict(SMALL.get(kind, {"embed_dim": 4, "lstm_hidden_dim": 4, "hidden_dim": 4}))
    for name, value in opts.items():
        if "reduction" in name and value is not None:
            value = {f"ChordType.{k.name}": f"ChordType.{v.name}" for k, v in value.items()}
        written[NAMES.get(name, name)] = list(value) if isinstance(value, tuple) else value
    if kind == "csm-p":
        opts["pitch_based"] = True
    return opts, written


def numbers(value):
    return [numbers(v) for v in value] if hasattr(value, "__len__") else float(value)


def canonical(item):
    return repr((item["length"], None if item["inputs"] is None else numbers(item["inputs"]),
                 numbers(item["targets"])))


def split_pieces(plan, pieces, seed, split):
    """Pieces of a split, different for the two seeds."""
    which = ["train", "valid", "test"].index(split)
    turn = 0 if seed == 0 else 1
    mine = [p for p, share in zip(pieces, plan["share"]) if (share + turn) % 3 == which]
    return mine or [pieces[(which + turn) % len(pieces)]]


def first_chords(plan):
    """Store the ids (and some pieces) of both seeds; the prior which the split asked for gives."""
    import pickle

    import h5py

    folder = plan["h5"] or "h5_data"
    os.makedirs(folder)
    pieces = dataref.load_annotated(plan["pieces"])
    want = {}
    for turn, seed in enumerate((0, 3)):
        for split in ("train", "valid", "test"):
            mine = split_pieces(plan, list(range(len(pieces))), seed, split)
            if plan["stored"][turn * 2]:
                mine = mine[::-1]
            with h5py.File(f"{folder}/ChordTransitionDataset_{split}_seed_{seed}.h5", "w") as handle:
                handle.create_dataset("file_ids", data=mine)
            if plan["stored"][turn * 2 + 1]:
                with open(f"{folder}/pieces_{split}_seed_{seed}.pkl", "wb") as handle:
                    pickle.dump([pieces[i].to_dict() for i in mine], handle)
            counts = {}
            for i in mine:
                chord = pieces[i].get_chords()[0]
                try:
                    place = (chord.key_mode.name, int(chord.get_one_hot_index(relative=True, use_inversion=True,
                                                                              pad=False)))
                except ValueError:
                    return None
                counts[place] = counts.get(place, 0) + 1
            want[seed, split] = counts
    return want


def check_prior(ctx, disk, plan, want, argv):
    """The prior says what the first chords of its own training split say."""
    path = os.path.join(plan["where"] or "checkpoints", "icm", "initial_chord_prior.json")
    full = os.path.join(disk, path)
    ctx.check(os.path.exists(full), "wrong-place", lambda: f"there is no {path} ({' '.join(argv)})")
    with open(full) as handle:
        data = json.load(handle)
    for mode in ("MAJOR", "MINOR"):
        got = data[mode.lower()]
        counts = {i: n for (m, i), n in want.items() if m == mode}
        total = sum(counts.values()) + 1
        for i, value in enumerate(got):
            expected = (counts.get(i, 0) + 1 / len(got)) / total
            ctx.check(abs(value - expected) < 1e-6, "wrong-items",
                      lambda: f"{mode} prior of chord {i} is {value}, the training pieces say {expected} ({' '.join(argv)})")
    ctx.probe("prior")


def store(plan):
    """Store the data sets of both seeds; the reference items of the split asked for."""
    from harmonic_inference.data import datasets

    opts, written = options_of(plan)
    name = KINDS[plan["kind"]][1]
    pieces = dataref.load_annotated(plan["pieces"])
    folder = plan["h5"] or "h5_data"
    os.makedirs(folder)
    want = {}
    for seed in (0, 3):
        for split in ("train", "valid", "test"):
            mine = split_pieces(plan, pieces, seed, split)
            try:
                items = dataref.reference(name, mine, opts)
                made = getattr(datasets, name)(mine)
            except ValueError:
                return None  # a chord or key which no vector stands for
            if not items or any(item["targets"] is None for item in items):
                return None
            made.to_h5(f"{folder}/{name}_{split}_seed_{seed}.h5", file_ids=list(range(len(mine))))
            want[seed, split] = [canonical(item) for item in items]
    if written is not None:
        with open("options.json", "w") as out:
            json.dump(written, out)
    if plan["resume"]:
        os.makedirs(os.path.dirname(plan["resume"]))
        with open(plan["resume"], "w") as out:
            out.write("x")
    return want


class Items:
    """The items of one batch, one at a time."""

    def __init__(self, batch):
        self.batch = batch

    def __len__(self):
        return len(self.batch["inputs"])

    def __getitem__(self, i):
        return pick(self.batch, i)


def pick(batch, i):
    return {k: pick(v, i) if isinstance(v, dict) else v[i] for k, v in batch.items()}


def reference_numbers(plan, model, batch):
    """(mean loss, percentage right) of a batch, or None."""
    import numpy as np

    if plan["kind"] == "csm-p":
        return None
    parts = [Items(batch)[i] for i in range(len(Items(batch)))]
    if plan["kind"] == "ccm":
        parts = [p for p in parts if int(np.asarray(p["targets"])) != -1]
    right, count, loss = one_by_one(model, plan["kind"], parts)
    return (loss / count, 100 * right / count) if count else None


def train(plan, argv, deep):
    """Run train.py under a recording trainer."""
    import h5py
    import pytorch_lightning as pl
    import torch.utils.data as tud
    from harmonic_inference.data import datasets

    seen, reads, at = [], [0], [0]
    memory, schedule = plan["memory"], plan["schedule"] or [0]
    cls = getattr(datasets, KINDS[plan["kind"]][1])
    if plan["batch"]:
        cls.train_batch_size = plan["batch"]
        cls.valid_batch_size = max(1, plan["batch"] - 1)

    def pressure(_path, key, _dtype):
        if key not in ("inputs", "targets", "key_change_replacements"):
            return
        reads[0] += 1
        if memory and reads[0] == 1 + memory["at"]:
            probe("out_of_memory")
            raise MemoryError("simulated")

    def choose(n):
        at[0] += 1
        return schedule[at[0] % len(schedule)] % n

    def shuffle(n):
        order = list(range(n))
        for i in range(n - 1, 0, -1):
            j = choose(i + 1)
            order[i], order[j] = order[j], order[i]
        return order

    h5py.ON_READ, tud.CHOOSE, tud.SHUFFLE = pressure, choose, shuffle

    def fit(trainer, model, train_loader, valid_loader):
        logged = {}
        type(model).log = lambda self, name, value, *a, **k: logged.__setitem__(name, float(value))
        optimizers, schedulers = model.configure_optimizers()
        record = {"class": type(model).__name__, "settings": {k: str(v) for k, v in trainer.settings.items()},
                  "rate": [o.settings.get("lr") for o in optimizers], "hparams": dict(model.hparams),
                  "train": [], "valid": [], "numbers": [], "workers": (train_loader.num_workers,
                                                                       valid_loader.num_workers)}
        for split, loader, step in [("train", train_loader, "training_step")] * plan["epochs"] + [
                ("valid", valid_loader, "validation_step")]:
            epoch = []
            for number, batch in enumerate(loader):
                items = Items(batch)
                epoch += [canonical(dataref.observed(items[i])) for i in range(len(items))]
                if not deep or plan["options"] is None or number > 3:
                    continue
                if number == 0:
                    favour(model, plan["kind"], items, plan["favour"])
                logged.clear()
                returned = getattr(model, step)(batch, number)
                got = (logged.get("train_loss" if split == "train" else "val_loss"),
                       None if split == "train" else logged.get("val_acc"),
                       None if returned is None else float(returned))
                record["numbers"].append((split, got, reference_numbers(plan, model, batch)))
            record[split].append(epoch)
        seen.append(record)

    pl.FIT = fit
    ending = "ok"
    try:
        run_script(os.path.join(REPO, "train.py"), argv)
    except SystemExit as stop:
        ending = "ok" if stop.code in (None, 0) else f"exit {stop.code}"
    except Exception as error:
        import traceback

        ending = f"{type(error).__name__}: {error}"[:300] + traceback.format_exc()[-900:]
    return ending, seen


def near(got, want):
    return got is not None and abs(got - want) <= 1e-3 * max(1, abs(want))


def execute(ctx, plan):
    from collections import Counter

    if len(plan["pieces"]) < 2 or len(plan["share"]) != len(plan["pieces"]) or not usable(plan["pieces"]):
        raise Invalid()
    disk = ctx.path("disk")
    write_corpus(os.path.join(disk, "corpus"), plan["pieces"])
    if plan["kind"] == "icm" and len(plan["stored"]) != 4:
        raise Invalid()
    out = ctx.spawn(first_chords if plan["kind"] == "icm" else store, plan, root=disk, fs={})
    ctx.check(out.ok, "data-sets-not-stored", lambda: f"{out} {out.tb}")
    want = out.value
    if want is None:
        raise Invalid()
    kind, seed = plan["kind"], plan["seed"] or 0
    cls, name = KINDS[kind]
    argv = ["-m", kind.split("-")[0]] + (["--pitch-based"] if kind == "csm-p" else [])
    if kind == "icm":
        plan = dict(plan, options=None, resume=None)
        argv += ["-i", "corpus"]
    for flag, value in (("--seed", plan["seed"]), ("-lr", plan["lr"]), ("--workers", plan["workers"]),
                        ("--checkpoint", plan["where"]), ("-h5", plan["h5"]), ("--resume", plan["resume"]),
                        ("--model-kwargs", None if plan["options"] is None else "options.json")):
        if value is not None:
            argv += [flag, str(value)]
    files = {"train": f"{plan['h5'] or 'h5_data'}/{name}_train_seed_{seed}.h5",
             "valid": f"{plan['h5'] or 'h5_data'}/{name}_valid_seed_{seed}.h5", "json": "options.json"}
    faults, fault, loud = [], plan["fault"], None
    if fault and fault["file"] == "json" and plan["options"] is None:
        fault = None
    if fault and kind == "icm" and fault["file"] == "valid":
        fault = None
    if fault:
        path = files[fault["file"]]
        full = os.path.join(disk, path)
        if fault["kind"] == "missing":
            os.remove(full)
            loud = f"{path} is missing"
        elif fault["kind"] == "torn":
            with open(full, "rb") as handle:
                data = handle.read()
            with open(full, "wb") as handle:
                handle.write(data[: len(data) * fault["at"] // 6])
            loud = f"{path} is cut off"
        else:
            faults = [{"kind": fault["kind"], "ops": ["read"] if fault["kind"] == "eio" else ["open_r"],
                       "path": os.path.basename(path), "at": fault["at"] % 3, "sticky": fault["sticky"]}]
    if loud:
        ctx.fault("damaged_input")
    out = ctx.spawn(train, plan, argv, True, root=disk, fs=dict(plan["disk"], faults=faults))
    ctx.check(out.ok, "harness", lambda: f"{out} {out.tb}")
    ending, seen = out.value
    ctx.event("end", ending[:120], [(s["class"], s["numbers"]) for s in seen])
    if out.probes.get("out_of_memory"):
        ctx.fault("out_of_memory")
    hit = any(out.fired.get(k) for k in ("eio", "eacces", "emfile", "enoent"))
    ctx.nontrivial = bool(hit or loud or out.probes.get("out_of_memory") or (plan["workers"] or 4) > 1)
    if loud:
        ctx.check(ending != "ok" and not seen, "trained-on-other-data",
                  lambda: f"{loud}, but training went ahead ({' '.join(argv)})")
        ctx.probe("refused")
        return
    if ending != "ok":
        ctx.check(hit, "training-failed", lambda: f"train.py {' '.join(argv)}: {ending}")
        ctx.probe("failed")
        return
    if kind == "icm":
        ctx.check(not seen, "trained-otherwise", lambda: f"a network was fitted ({' '.join(argv)})")
        check_prior(ctx, disk, plan, want[seed, "train"], argv)
        return
    ctx.check(len(seen) == 1, "trained-otherwise", lambda: f"{len(seen)} models were fitted")
    got = seen[0]
    ctx.check(got["class"] == cls, "wrong-model", lambda: f"{got['class']} instead of {cls} ({' '.join(argv)})")
    rate = 0.001 if plan["lr"] is None else plan["lr"]
    ctx.check(got["rate"] == [rate], "wrong-setting", lambda: f"learning rate {got['rate']}, asked for {rate}")
    place = os.path.join(plan["where"] or "checkpoints", kind.split("-")[0])
    ctx.check(os.path.normpath(got["settings"].get("default_root_dir", "")) == place, "wrong-place",
              lambda: f"checkpoints go to {got['settings'].get('default_root_dir')} instead of {place}")
    ctx.check(got["settings"].get("resume_from_checkpoint") == str(plan["resume"]), "wrong-setting",
              lambda: f"resumes from {got['settings'].get('resume_from_checkpoint')} instead of {plan['resume']}")
    if plan["options"] is not None:
        for key, value in options_of(plan)[1].items():
            have = got["hparams"].get(key)
            if isinstance(have, dict):
                have = {str(k): str(v) for k, v in have.items()}
            if isinstance(have, tuple):
                have = list(have)
            ctx.check(have == value, "wrong-setting", lambda: f"{key} = {have}, asked for {value}")
    for split in ("train", "valid"):
        expected = Counter(want[seed, split])
        for number, epoch in enumerate(got[split]):
            have = Counter(epoch)
            ctx.check(have == expected, "wrong-items",
                      lambda: f"{split} epoch {number}: {sum(have.values())} items instead of "
                              f"{sum(expected.values())}; missing {str(list((expected - have))[:1])[:600]}; "
                              f"extra {str(list((have - expected))[:1])[:600]}")
            ctx.probe("epoch")
    for split, (loss, acc, returned), right in got["numbers"]:
        if right is None:
            continue
        ctx.check(near(loss, right[0]) and (split == "valid" or near(returned, right[0])), "wrong-loss",
                  lambda: f"{kind} {split}: loss {loss} (returned {returned}) of items that give {right[0]}")
        if split == "valid":
            ctx.check(near(acc, right[1]), "wrong-accuracy",
                      lambda: f"{kind}: accuracy {acc} of items that give {right[1]}")
        ctx.probe("step_recomputed")
