"""P17: a model's reported accuracy and loss do not depend on how items fall into batches."""
import os

from dst import dataref, joint
from dst.common import ASSUME_PY, STUB_DISK, STUB_H5, STUB_TORCH
from dst.interrupt import fail_at, pristine, steps
from dst.kernel import Invalid
from dst.proc import probe
from dst.props.p03 import write_corpus
from dst.props.p04 import rand_pieces, usable

PROPERTY = "P17"
BUDGET = {
    "quick": {"runs": 110, "wall_s": 420},
    "thorough": {"runs": 6000, "wall_s": 3300},
}
RULE = (
    "one run = 1-5 generated pieces, one of the five data sets made from them, a sub-model with seeded weights, and "
    "its evaluation with 2-5 seeded batch sizes, orders of pieces and worker counts, some hit by an allocation "
    "failure or interrupt; accuracy and loss are compared with a count over all items, one at a time; "
    "non-trivial = some batch size splits the items unevenly, or a failure was injected"
)
REAL = ["evaluate of the five sub-model families", "get_data_from_batch", "data sets", "model forward functions"]
STUBS = [STUB_TORCH, STUB_H5, STUB_DISK]
ASSUMPTIONS = [ASSUME_PY, "losses as torch documents them (numpy stand-in)",
               "PitchBasedChordSequenceModel.evaluate is marked TODO in the code and left out"]
MODEL_OF = {"ChordTransitionDataset": "ctm", "ChordClassificationDataset": "ccm", "ChordSequenceDataset": "csm",
            "KeyTransitionDataset": "ktm", "KeySequenceDataset": "ksm"}


def generate(rng, tier, index):
    name = rng.choice(dataref.CLASSES + ["KeySequenceDataset"])
    rounds = [{"batch": rng.choice([1, 2, 3, 4, 7, 64]), "rotate": rng.randrange(8), "workers": rng.randrange(3),
               "schedule": [rng.randrange(12) for _ in range(6)],
               "fail": rng.randrange(1 << 14) if rng.random() < 0.2 else None}
              for _ in range(rng.randint(2, 4))]
    pieces = rand_pieces(rng, 5)
    if name == "KeySequenceDataset":
        for piece in pieces:
            piece["keys"], piece["chords"], piece["measures"] = rng.randint(1, 3), 4, rng.randint(2, 4)
    return {"name": name, "pieces": pieces, "weights": rng.randrange(1 << 16), "scale": rng.choice([1, 2, 4]),
            "favour": rng.choice([0, 4, 16]), "rounds": rounds}


def favour(model, kind, made, by):
    """Let the model answer right more often than random weights would: prefer the targets of some items."""
    import numpy as np

    if kind not in ("ccm", "csm", "ksm"):
        return
    last = [layer for layer in vars(model).values() if hasattr(layer, "out_features")][-1]
    targets = [int(t) for i in range(len(made)) for t in np.asarray(made[i]["targets"]).reshape(-1)[:4]]
    for target in sorted(set(targets), key=lambda t: (-targets.count(t), t))[:2]:
        if 0 <= target < last.out_features:
            last.bias[target] += by


def one_by_one(model, kind, made):
    """(right answers, targets, summed loss), item by item and straight from the outputs."""
    import numpy as np
    import torch.utils.data as tud

    right = count = 0
    loss = 0.0
    for i in range(len(made)):
        batch = tud.default_collate([made[i]])
        length = int(np.asarray(batch["input_lengths"])[0])
        inputs = batch["inputs"].float()[:, :length]
        lengths = batch["input_lengths"]
        targets = np.asarray(batch["targets"]).astype(float)[0]
        out = model(inputs, lengths)
        out = np.asarray(out[0] if isinstance(out, tuple) else out).astype(float)[0]
        if kind in ("ccm", "ksm"):
            target = int(targets)
            logs = out - out.max()
            logs = logs - np.log(np.exp(logs).sum())
            rows = [(int(out.argmax()) == target, -float(logs[target]) if kind == "ccm"
                     else -float(out[target]))]
        elif kind == "csm":  # the output after chord i predicts chord i + 1, if it is not in a new key
            new_key = np.asarray(inputs)[0][:, -1] == 1
            rows = [(int(out[j].argmax()) == int(targets[j + 1]), -float(out[j][int(targets[j + 1])]))
                    for j in range(length - 1) if not new_key[j + 1]]
        else:
            rows = []
            for p, t in zip(out.reshape(-1), targets[:length]):
                if t == -100:
                    continue
                with np.errstate(divide="ignore"):
                    cost = -max(np.log(p), -100) if t else -max(np.log(1 - p), -100)
                rows.append((np.round(p) == t, float(cost)))
        right += sum(bool(r) for r, _ in rows)
        loss += sum(c for _, c in rows)
        count += len(rows)
    return right, count, loss


def evaluations(plan):
    import torch.utils.data as tud
    from harmonic_inference.data import datasets

    pieces = dataref.load_annotated(plan["pieces"])
    cls = getattr(datasets, plan["name"])
    kind = MODEL_OF[plan["name"]]
    model = joint.sub_models({"weights": plan["weights"], "scale": plan["scale"], "pitch_based": 0})[kind]
    ready = pristine(lambda: bool(dataref.reference(plan["name"], pieces, {})))
    if ready[0] != "ok":
        return "nothing", None  # its chords or keys cannot be represented
    made = cls(pieces)
    if not len(made):
        return "nothing", None
    favour(model, kind, made, plan["favour"])
    right, count, loss = one_by_one(model, kind, made)
    if not count:
        return "nothing", None
    if 0 < right < count:
        probe("some_right")
    want = {"acc": 100 * right / count, "loss": loss / count}
    for number, spec in enumerate(plan["rounds"]):
        turn = spec["rotate"] % len(pieces)
        made = cls(pieces[turn:] + pieces[:turn])
        made.valid_batch_size = max(1, spec["batch"])
        if 1 < made.valid_batch_size < len(made) and len(made) % made.valid_batch_size:
            probe("uneven_batches")
        workers, schedule, at = spec["workers"], spec["schedule"] or [0], [0]
        real = tud.DataLoader.__init__

        def init(self, *args, _workers=workers, **kwargs):
            kwargs.setdefault("num_workers", _workers)
            real(self, *args, **kwargs)

        def choose(n, _schedule=schedule, _at=at):
            _at[0] += 1
            return _schedule[_at[0] % len(_schedule)] % n

        tud.DataLoader.__init__ = init
        tud.CHOOSE = choose
        try:
            if spec["fail"] is not None:
                total = pristine(lambda: steps(lambda: model.evaluate(made)))
                if total[0] == "ok" and total[1]:
                    error = MemoryError("injected") if spec["fail"] % 2 else KeyboardInterrupt("injected")
                    _, (status, _v) = fail_at(lambda: model.evaluate(made), spec["fail"] % total[1], error)
                    probe("interrupted" if status == "error" else "interrupt_survived")
            try:
                got = model.evaluate(made)
            except Exception as error:
                return "evaluation-failed", f"{plan['name']} round {number} {spec}: {type(error).__name__}: {error}"
        finally:
            tud.DataLoader.__init__ = real
        for what, value in want.items():
            if not abs(float(got[what]) - value) <= 1e-3 * max(1, abs(value)):
                return "depends-on-batches", (
                    f"{kind} over {len(made)} items in batches of {spec['batch']}: {what} = {got[what]}, "
                    f"item by item {value}")
    return None, [len(made), count]


def execute(ctx, plan):
    if not plan["rounds"] or not usable(plan["pieces"]):
        raise Invalid()
    disk = ctx.path("disk")
    write_corpus(os.path.join(disk, "corpus"), plan["pieces"])
    out = ctx.spawn(evaluations, plan, root=disk, fs={})
    ctx.check(out.ok, "model-cannot-be-evaluated", lambda: f"{out} {out.tb}")
    kind, detail = out.value
    ctx.event("result", kind, str(detail)[:300])
    if kind == "nothing":
        raise Invalid()
    if out.probes.get("interrupted"):
        ctx.fault("interrupt", out.probes["interrupted"])
    ctx.nontrivial = bool(out.probes.get("uneven_batches") or out.probes.get("interrupted"))
    if kind:
        ctx.violate(kind, detail)
