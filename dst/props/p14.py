"""P14: the initial-chord prior is exactly what its training chords say, or loading it fails."""
import os

from dst.common import ASSUME_DISK, ASSUME_PY, STUB_DISK, STUB_TORCH, rand_disk
from dst.interrupt import fail_at
from dst.kernel import Invalid

PROPERTY = "P14"
BUDGET = {
    "quick": {"runs": 180, "wall_s": 420},
    "thorough": {"runs": 9000, "wall_s": 3300},
}
RULE = (
    "one run = an initial-chord model trained from generated chords over a fresh or older file, the training "
    "hit by a seeded crash, torn write, full disk, write error or allocation failure; the file is loaded "
    "(sometimes with a read error) and queried and evaluated in a seeded order of pieces; non-trivial = a "
    "fault fired"
)
REAL = ["train_icm", "SimpleInitialChordModel", "load_kwargs_from_json", "Chord and Key encodings"]
STUBS = [STUB_DISK, STUB_TORCH, "pieces: holders of one real Chord and one real Key each"]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY]
MUTATING = ["open_w", "write", "rename", "remove", "truncate"]
FILE = "initial_chord_prior.json"


def rand_chords(rng, low):
    return [{"rel": rng.choice([0, 0, 1, -1, 2, 5, -14, 14, rng.randint(-14, 14)]), "tonic": rng.randint(14, 20),
             "minor": rng.random() < 0.4, "type": rng.choice([0, 0, 1, rng.randrange(12)]),
             "inv": rng.choice([0, 0, 1, 2, 3])} for _ in range(rng.randint(low, 8))]


def generate(rng, tier, index):
    return {
        "midi": rng.random() < 0.2,
        "smooth": rng.choice([1, 1, 2, 10, 0.1, 0.5]),
        "old": rand_chords(rng, 0),
        "new": rand_chords(rng, 1),
        "order": rng.randrange(1 << 16),
        "fault": rng.choice([None, "crash", "crash", "torn", "enospc", "eio", "eacces", "step"]),
        "step": rng.randrange(1 << 12), "keep": rng.randrange(1 << 12),
        "sticky": rng.random() < 0.5,
        "read_fault": rng.choice([None, None, None, "eio", "eacces"]),
        "disk": rand_disk(rng, short=0.3),
        "groups": [rng.randint(1, 3) for _ in range(4)],
    }


def make_chords(specs, midi):
    from harmonic_inference.data.chord import Chord
    from harmonic_inference.data.data_types import ChordType, KeyMode, PitchType
    from harmonic_inference.utils.harmonic_utils import get_chord_inversion_count

    types = sorted(ChordType)
    out = []
    for spec in specs:
        kind = types[spec["type"] % len(types)]
        tonic = spec["tonic"]
        root = tonic + spec["rel"]
        if midi:
            tonic, root = tonic % 12, root % 12
        elif not 0 <= root < 35:
            raise Invalid()
        out.append(Chord(
            root=root, bass=root, key_tonic=tonic,
            key_mode=KeyMode.MINOR if spec["minor"] else KeyMode.MAJOR, chord_type=kind,
            inversion=spec["inv"] % get_chord_inversion_count(kind), onset=(0, 0), onset_level=3,
            offset=(1, 0), offset_level=3, duration=1,
            pitch_type=PitchType.MIDI if midi else PitchType.TPC,
        ))
    return out


class Holder:
    def __init__(self, chord):
        import copy

        from harmonic_inference.data.data_types import KeyMode
        from harmonic_inference.data.key import Key

        tonic, mode = chord.key_tonic, chord.key_mode
        other = KeyMode.MINOR if mode == KeyMode.MAJOR else KeyMode.MAJOR
        pitch = chord.pitch_type
        # a piece which begins outside of its global key and moves on to other chords and keys
        self.keys = [Key(tonic, tonic, (tonic + 1) % 12, mode, mode, other, pitch),
                     Key(tonic, tonic, (tonic + 1) % 12, other, other, other, pitch)]
        second = copy.copy(chord)
        second.root = second.bass = chord.key_tonic
        second.key_mode, second.inversion = other, 0
        self.chords = [chord, second]

    def get_chords(self):
        return self.chords

    def get_keys(self):
        return self.keys


def train(specs, midi, smooth, error_at=None):
    from harmonic_inference.models.initial_chord_models import train_icm

    chords = make_chords(specs, midi)

    def run():
        train_icm(chords, FILE, add_n_smoothing=smooth)

    if error_at is None:
        return run()
    fired, (how, value) = fail_at(run, error_at, MemoryError("simulated allocation failure"))
    if how == "error":
        raise value
    return None


def load(order, groups, specs, midi):
    """Everything a user of the loaded model can see."""
    import numpy as np

    from harmonic_inference.data.data_types import TRIAD_REDUCTION, PitchType
    from harmonic_inference.models.initial_chord_models import SimpleInitialChordModel
    from harmonic_inference.utils.data_utils import load_kwargs_from_json
    from harmonic_inference.utils.harmonic_utils import get_chord_from_one_hot_index

    kwargs = load_kwargs_from_json(FILE)
    model = SimpleInitialChordModel(kwargs)
    pitch = PitchType.MIDI if midi else PitchType.TPC
    out = {"pitch": model.PITCH_TYPE is pitch}
    out["labels"] = [(int(r), str(t), int(i)) for r, t, i in get_chord_from_one_hot_index(
        slice(None, None), pitch, relative=True)]
    pieces = [Holder(c) for c in make_chords(specs, midi)]
    out["all"] = model.evaluate(pieces)
    parts, rest = [], list(pieces)
    if order % 2:
        rest.reverse()
    for size in groups + [len(rest)]:
        if not rest:
            break
        part, rest = rest[:size], rest[size:]
        parts.append((len(part), model.evaluate(part)))
    out["parts"] = parts
    for mode in (False, True):
        out["minor" if mode else "major"] = [float(x) for x in model.get_prior(mode, log=False)]
        out["log" + str(int(mode))] = bool(np.allclose(
            np.exp(model.get_prior(mode, log=True)), model.get_prior(mode, log=False)))
    small = []
    for inversions, reduction in ((False, None), (False, TRIAD_REDUCTION)):
        kwargs = load_kwargs_from_json(FILE)
        reduced = SimpleInitialChordModel(kwargs, use_inversions=inversions, reduction=reduction)
        labels = get_chord_from_one_hot_index(slice(None, None), pitch, relative=True,
                                              use_inversions=False, reduction=reduction)
        names = None if reduction is None else {str(k): str(v) for k, v in reduction.items()}
        result = reduced.evaluate(pieces)
        small.append((names, [(int(r), str(t)) for r, t, _ in labels],
                      [[float(x) for x in reduced.get_prior(m, log=False)] for m in (False, True)],
                      result["loss"]))
    out["small"] = small
    return out


def expected(specs, midi, smooth, labels):
    """{mode: {label: probability}} straight from the definition."""
    import math

    from harmonic_inference.data.data_types import ChordType
    from harmonic_inference.utils.harmonic_utils import get_chord_inversion_count

    types = sorted(ChordType)
    out = {}
    for minor in (False, True):
        counts = {}
        mine = [s for s in specs if s["minor"] == minor]
        for spec in mine:
            kind = types[spec["type"] % len(types)]
            rel = spec["rel"] % 12 if midi else spec["rel"]
            key = (rel, str(kind), spec["inv"] % get_chord_inversion_count(kind))
            counts[key] = counts.get(key, 0) + 1
        total = len(mine) + smooth
        out[minor] = {label: (counts.get(label, 0) + smooth / len(labels)) / total
                      for label in labels}
        assert math.isclose(sum(out[minor].values()), 1)
    return out


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def verify(ctx, seen, specs, plan):
    """Does what the loaded model says follow from `specs`?  Returns a complaint or None."""
    import math

    labels = [tuple(x) for x in seen["labels"]]
    if not seen["pitch"]:
        return "wrong pitch type"
    want = expected(specs, plan["midi"], plan["smooth"], labels)
    for minor, name in ((False, "major"), (True, "minor")):
        if len(seen[name]) != len(labels):
            return f"{name}: {len(seen[name])} entries for {len(labels)} labels"
        for label, got in zip(labels, seen[name]):
            if not close(got, want[minor][label]):
                return f"{name} prior of {label} is {got}, training chords say {want[minor][label]}"
        if not seen["log" + str(int(minor))]:
            return f"{name}: log prior is not the log of the prior"
    for reduction, small_labels, priors, loss in seen["small"]:
        total = 0.0
        sums = {}
        for minor in (False, True):
            marginal = {}
            for (root, kind, _), value in want[minor].items():
                key = (root, kind if reduction is None else reduction[kind])
                marginal[key] = marginal.get(key, 0.0) + value
            if len(priors[minor]) != len(small_labels) or len(marginal) != len(small_labels):
                return f"reduced model has {len(priors[minor])} entries"
            for label, got in zip(small_labels, priors[minor]):
                if not close(got, marginal[tuple(label)]):
                    return f"reduced prior of {label} is {got}, marginal is {marginal[tuple(label)]}"
            sums[minor] = marginal
        for spec, label in zip(plan["new"], own_labels(plan)):
            key = (label[0], label[1] if reduction is None else reduction[label[1]])
            total -= math.log(sums[spec["minor"]][key])
        if not close(loss, total / len(plan["new"])):
            return f"reduced evaluation loss {loss} instead of {total / len(plan['new'])}"
    # evaluation: mean over pieces, whatever the grouping
    losses, hits, unsure = 0.0, 0, False
    for spec, label in zip(plan["new"], own_labels(plan)):
        prior = want[spec["minor"]]
        losses -= math.log(prior[label])
        best = max(prior.values())
        leaders = [k for k, v in prior.items() if close(v, best)]
        if len(leaders) > 1 and label in leaders:
            unsure = True
        hits += leaders == [label]
    n = len(plan["new"])
    if not close(seen["all"]["loss"], losses / n):
        return f"loss {seen['all']['loss']} instead of {losses / n}"
    if not unsure and not close(seen["all"]["acc"], 100 * hits / n):
        return f"accuracy {seen['all']['acc']} instead of {100 * hits / n}"
    for measure in ("loss", "acc"):
        mean = sum(k * part[measure] for k, part in seen["parts"]) / n
        if sum(k for k, _ in seen["parts"]) != n or not close(mean, seen["all"][measure]):
            return f"{measure} depends on how pieces are grouped: {mean} vs {seen['all'][measure]}"
    return None


def own_labels(plan):
    from harmonic_inference.data.data_types import ChordType
    from harmonic_inference.utils.harmonic_utils import get_chord_inversion_count

    types = sorted(ChordType)
    out = []
    for spec in plan["new"]:
        kind = types[spec["type"] % len(types)]
        out.append((spec["rel"] % 12 if plan["midi"] else spec["rel"], str(kind),
                    spec["inv"] % get_chord_inversion_count(kind)))
    return out


def execute(ctx, plan):
    if not plan["new"] or not plan["groups"] or min(plan["groups"]) < 1 or not plan["smooth"]:
        raise Invalid()
    for spec in plan["new"] + plan["old"]:
        if not plan["midi"] and (not -14 <= spec["rel"] <= 14 or not 0 <= spec["tonic"] + spec["rel"] < 35):
            raise Invalid()
    disk = ctx.path("disk")
    args = (plan["midi"], plan["smooth"])
    if plan["old"]:
        out = ctx.spawn(train, plan["old"], *args, root=disk)
        ctx.check(out.ok, "training-failed", lambda: f"{out} {out.tb}")
    kind, fault, error_at = plan["fault"], None, None
    if kind == "step":
        error_at = plan["step"] % 60
    elif kind:
        ref = ctx.path("ref")
        dry = ctx.spawn(train, plan["new"], *args, root=ref, fs=dict(plan["disk"], faults=[]))
        ctx.check(dry.ok, "training-failed", lambda: f"{dry} {dry.tb}")
        ops = MUTATING if kind in ("crash", "torn") else ["open_w", "write", "rename"]
        total = sum(dry.ops.get(op, 0) for op in ops)
        fault = {"kind": kind, "ops": ops, "at": plan["step"] % total, "path": None,
                 "keep": plan["keep"], "sticky": plan["sticky"] and kind not in ("crash", "torn")}
    import random

    new = list(plan["new"])
    random.Random(plan["order"]).shuffle(new)
    out = ctx.spawn(train, new, *args, error_at, root=disk,
                    fs=dict(plan["disk"], faults=[fault] if fault else []))
    if error_at is not None and not out.ok:
        ctx.fault("alloc_failure")
    ctx.check(out.ok or kind, "training-failed", lambda: f"{out} {out.tb}")
    exists = os.path.isfile(os.path.join(disk, FILE))
    ctx.check(exists or not out.ok, "no-file", "training reported success but wrote nothing")
    look = (plan["order"], plan["groups"], plan["new"], plan["midi"])
    fs = {}
    if plan["read_fault"]:
        fs = {"faults": [{"kind": plan["read_fault"], "ops": ["open_r", "read"], "at": 0,
                          "path": FILE, "keep": 0, "sticky": False}]}
    seen = ctx.spawn(load, *look, root=disk, fs=fs)
    if plan["read_fault"]:
        ctx.check(not (seen.ok and seen.fired), "read-error-swallowed",
                  "a model was loaded from a file that could not be read")
        if not seen.ok:
            seen = ctx.spawn(load, *look, root=disk)
    if out.ok:
        ctx.check(seen.ok, "trained-model-unusable", lambda: f"{seen} {seen.tb}")
        complaint = verify(ctx, seen.value, plan["new"], plan)
        ctx.check(complaint is None, "prior-wrong", lambda: complaint)
    elif seen.ok:
        first = verify(ctx, seen.value, plan["new"], plan)
        second = verify(ctx, seen.value, plan["old"], plan) if plan["old"] else "no older model"
        ctx.check(first is None or second is None, "mixture-loaded",
                  lambda: f"after {kind}: neither the new model ({first}) nor the old ({second})")
        ctx.probe("whole_model_after_failure")
    else:
        ctx.probe("load_refused")
    if not out.ok:
        again = ctx.spawn(train, new, *args, root=disk)
        ctx.check(again.ok, "retry-failed", lambda: f"{again} {again.tb}")
        seen = ctx.spawn(load, *look, root=disk)
        ctx.check(seen.ok, "trained-model-unusable", lambda: f"{seen} {seen.tb}")
        complaint = verify(ctx, seen.value, plan["new"], plan)
        ctx.check(complaint is None, "retry-wrong", lambda: complaint)
    ctx.event("file", os.path.getsize(os.path.join(disk, FILE)))
