"""P04: an item of a data set depends on the pieces and options only, never on earlier reads."""
import os

from dst import dataref, gen, model
from dst.common import ASSUME_PY, STUB_DISK, STUB_H5, STUB_TORCH
from dst.interrupt import fail_at, pristine, steps
from dst.kernel import Invalid
from dst.proc import probe
from dst.props.p03 import piece_tables, write_corpus

PROPERTY = "P04"
BUDGET = {
    "quick": {"runs": 200, "wall_s": 420},
    "thorough": {"runs": 6000, "wall_s": 3300},
}
RULE = (
    "one run = 1-3 generated pieces, 1-2 data sets made from them (or reloaded from a file) with seeded "
    "options, and a seeded history of 3-10 operations: single reads, whole passes of a data loader with 0-3 "
    "simulated workers whose interleaving is seeded, changes of the options, padding, saving, copies, reads "
    "hit by an allocation failure or interrupt at a seeded step; every item read is compared with a reference "
    "computed from the pieces; non-trivial = a failure was injected or a read followed another operation"
)
REAL = ["all five data set classes", "vector_decoding reductions and transposition", "h5_to_dataset"]
STUBS = [STUB_TORCH, STUB_H5, STUB_DISK]
ASSUMPTIONS = [ASSUME_PY, "inputs are compared in half precision, the precision of stored data sets",
               "a chord type reduction of targets is combined with dropping inversions"]


def rand_pieces(rng, most=3, keys=True, applied=False):
    pieces = []
    for i in range(rng.randint(1, most)):
        piece = gen.rand_piece(rng, "a", f"p{i}", 4, applied=applied)
        if keys and rng.random() < 0.7:
            piece["keys"] = rng.randint(1, 3)
            piece["chords"] = rng.randint(2, 4)
        pieces.append(piece)
    return pieces


def usable(pieces):
    cleaned = [model.clean(piece_tables(p)) for p in pieces]
    return bool(pieces) and all(c["notes"] and c["chords"] for c in cleaned)


def generate(rng, tier, index):
    sets = []
    for _ in range(rng.choice([1, 1, 2])):
        name = rng.choice(dataref.CLASSES + dataref.CLASSES[2:])
        sets.append({"name": name, "options": dataref.rand_options(rng, name),
                     "reload": int(rng.random() < 0.3)})
    ops = []
    for _ in range(rng.randint(3, 10)):
        which = rng.randrange(len(sets))
        kind = rng.choice(["get", "get", "get", "loader", "loader", "options", "pad", "save", "copy", "fail"])
        op = {"kind": kind, "set": which, "item": rng.randrange(1 << 10)}
        if kind == "loader":
            op.update(batch=rng.randint(1, 5), workers=rng.randrange(4), shuffle=rng.randrange(2),
                      schedule=[rng.randrange(12) for _ in range(12)])
        if kind == "options":
            op["options"] = dataref.rand_options(rng, sets[which]["name"])
            op["options"].pop("transposition_range", None)
        if kind == "fail":
            op["step"] = rng.randrange(1 << 12)
            op["pad"] = int(rng.random() < 0.3)
        ops.append(op)
    return {"pieces": rand_pieces(rng, applied=True), "sets": sets, "ops": ops}


def shuffled(n, schedule):
    order = list(range(n))
    for i in range(n - 1, 0, -1):
        j = schedule[i % len(schedule)] % (i + 1) if schedule else 0
        order[i], order[j] = order[j], order[i]
    return order


def history(plan):
    import copy

    import torch.utils.data as tud
    from harmonic_inference.data import datasets

    pieces = dataref.load_annotated(plan["pieces"])
    states = []
    for number, spec in enumerate(plan["sets"]):
        cls = getattr(datasets, spec["name"])
        opts = dataref.kwargs(spec["options"])
        wants = pristine(lambda: dataref.reference(spec["name"], pieces, opts))
        if wants[0] != "ok":
            return "unusable", wants[1]
        try:
            made = cls(pieces, **opts)
            if spec["reload"] and len(made):
                made.to_h5(f"set{number}.h5")
                made = datasets.h5_to_dataset(f"set{number}.h5", cls, dataset_kwargs=opts)
        except Exception as error:
            return "construction-failed", f"{spec}: {type(error).__name__}: {error}"
        states.append({"set": made, "opts": opts, "want": wants[1], "name": spec["name"],
                       "options": spec["options"], "fresh": copy.deepcopy(made)})
        if len(made) != len(wants[1]):
            return "wrong-size", f"{spec}: {len(made)} items instead of {len(wants[1])}"

    def check(state, i, item):
        want = state["want"][i]
        bad = dataref.difference(dataref.observed(item), want)
        if bad is None and dataref.everything(item) != dataref.everything(copy.deepcopy(state["fresh"])[i]):
            bad = "differs (in its padding) from what a data set gives that was never read"
        return None if bad is None else f"{state['name']} item {i}: {bad}"

    def read(state, i):
        try:
            item = state["set"][i]
        except AssertionError:
            if state["want"][i]["targets"] is None:
                probe("read_refused")
                return None
            raise
        if state["want"][i]["targets"] is None:
            return None
        return check(state, i, item)

    for number, op in enumerate(plan["ops"]):
        state = states[op["set"] % len(states)]
        made, n = state["set"], len(state["want"])
        if not n:
            continue
        label = f"operation {number} ({op['kind']})"
        i = op["item"] % n
        try:
            if op["kind"] == "fail" and op.get("pad"):
                total = pristine(lambda: steps(made.pad))
                if total[0] == "ok" and total[1]:
                    error = MemoryError("injected") if op["step"] % 2 else KeyboardInterrupt("injected")
                    _, (status, _v) = fail_at(made.pad, op["step"] % total[1], error)
                    probe("interrupted" if status == "error" else "interrupt_survived")
                made.pad()
                state["fresh"].pad()
            elif op["kind"] == "fail":
                total = pristine(lambda: steps(lambda: made[i]))
                if total[0] == "ok" and total[1]:
                    error = MemoryError("injected") if op["step"] % 2 else KeyboardInterrupt("injected")
                    _, (status, _v) = fail_at(lambda: made[i], op["step"] % total[1], error)
                    probe("interrupted" if status == "error" else "interrupt_survived")
            elif op["kind"] == "options":
                merged = dict(state["options"], **op["options"])
                opts = dataref.kwargs(merged)
                wants = pristine(lambda: dataref.reference(state["name"], pieces, opts))
                if wants[0] != "ok":
                    return "unusable", wants[1]
                for key, value in opts.items():
                    if key != "transposition_range":
                        setattr(made, key, value)
                        setattr(state["fresh"], key, value)
                state.update(opts=opts, options=merged, want=wants[1])
            elif op["kind"] == "pad":
                made.pad()
                state["fresh"].pad()
            elif op["kind"] == "save":
                made.to_h5(f"saved{op['set']}_{number}.h5", file_ids=list(range(len(pieces))))
                state["fresh"].pad()
            elif op["kind"] == "copy":
                state["set"] = made = copy.deepcopy(made)
            elif op["kind"] == "loader" and not any(w["targets"] is None for w in state["want"]):
                schedule = list(op["schedule"]) or [0]
                turn = [0]

                def choose(k):
                    turn[0] += 1
                    return schedule[turn[0] % len(schedule)] % k

                tud.CHOOSE = choose
                order = shuffled(n, schedule) if op["shuffle"] else list(range(n))
                tud.SHUFFLE = lambda k: order
                loader = tud.DataLoader(made, batch_size=op["batch"], shuffle=bool(op["shuffle"]),
                                        num_workers=op["workers"])
                at = 0
                for batch in loader:
                    size = len(batch["input_lengths"])
                    for row in range(size):
                        one = {}
                        for key, value in batch.items():
                            one[key] = ({k: v[row] for k, v in value.items()}
                                        if isinstance(value, dict) else value[row])
                        bad = check(state, order[at], one)
                        if bad:
                            return "item-wrong", f"{label}, {op['workers']} workers, batch of {size}: {bad}"
                        at += 1
                if at != n:
                    return "item-lost", f"{label}: {at} of {n} items delivered"
                probe("workers" if op["workers"] else "no_workers")
            bad = read(state, i)
        except Exception as error:
            import traceback

            return "read-failed", (f"{label} on {state['name']} {state['options']}: "
                                   f"{type(error).__name__}: {error}\n{traceback.format_exc()[-900:]}")
        if bad:
            return "item-wrong", f"{label}: {bad}"
    for state in states:
        for i in range(len(state["want"])):
            try:
                bad = read(state, i)
            except Exception as error:
                return "read-failed", f"final read of {state['name']} item {i}: {type(error).__name__}: {error}"
            if bad:
                return "item-wrong", f"final read: {bad}"
    return None, [len(s["want"]) for s in states]


def execute(ctx, plan):
    if not plan["sets"] or not usable(plan["pieces"]):
        raise Invalid()
    if any(op["kind"] == "loader" and not op["batch"] for op in plan["ops"]):
        raise Invalid()
    disk = ctx.path("disk")
    write_corpus(os.path.join(disk, "corpus"), plan["pieces"])
    out = ctx.spawn(history, plan, root=disk, fs={})
    ctx.check(out.ok, "data-set-cannot-be-used", lambda: f"{out} {out.tb}")
    kind, detail = out.value
    ctx.event("result", kind, str(detail)[:300])
    if kind == "unusable":
        raise Invalid(detail)
    if out.probes.get("interrupted"):
        ctx.fault("interrupt", out.probes["interrupted"])
    ctx.nontrivial = len(plan["ops"]) > 1
    if kind:
        ctx.violate(kind, detail)
