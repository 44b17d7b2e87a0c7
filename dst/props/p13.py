"""P13: an annotation depends only on the piece, the model and the forced labels, and obeys them."""
import os

from dst import gen, joint, model as tables
from dst.common import ASSUME_PY, STUB_DISK, STUB_TORCH, describe_piece, first_difference, norm
from dst.interrupt import fail_at, pristine
from dst.kernel import Invalid
from dst.proc import probe
from dst.props.p03 import piece_tables, write_corpus

PROPERTY = "P13"
BUDGET = {
    "quick": {"runs": 140, "wall_s": 420},
    "thorough": {"runs": 3000, "wall_s": 3300},
}
RULE = (
    "one run = a complete joint model with seeded weights and search parameters, 1-2 generated pieces and a "
    "history of 1-4 decodings in one process, with seeded forced chords, keys, changes and non-changes "
    "(also contradictory ones), batch sizes, verbose logging and allocation failures or interrupts at a "
    "seeded line step; every annotation is compared with the one a fresh model gives for a fresh piece in "
    "a fork, and checked against the piece and the forces; some are repeated forced to their own answer, "
    "whose score must be the same path's score; non-trivial = a failure was injected, "
    "something was forced, or a decoding followed another one"
)
REAL = ["HarmonicInferenceModel, DebugLogger", "State, Beam, HashedBeam", "all sub-models' forward code",
        "data sets, ScorePiece", "get_annotation_df"]
STUBS = [STUB_DISK, STUB_TORCH]
ASSUMPTIONS = [ASSUME_PY]
BATCHED = ["ChordTransitionDataset", "ChordClassificationDataset", "ChordSequenceDataset",
           "KeyTransitionDataset", "KeySequenceDataset"]
NO_LABEL = 10 ** 5
FORCES = ["chord_changes", "chord_changes", "chord_non_changes", "key_changes", "key_non_changes", "chords",
          "chords", "keys", "keys"]


def rand_forces(rng):
    if rng.random() < 0.35:
        return []
    out = [{"kind": rng.choice(FORCES), "at": rng.randrange(64), "len": rng.choice([1, 1, 2, 3]),
            "id": rng.randrange(64), "raw": int(rng.random() < 0.12)} for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.4:  # different labels next to each other, often at the end
        kind, at = rng.choice(["chords", "keys"]), rng.choice([-2, -2, -2, -3, 0, rng.randrange(64)])
        first = rng.randrange(64)
        out = out[:rng.randrange(2)] + [
            {"kind": kind, "at": at + i, "len": 1, "id": first + i, "raw": 0} for i in range(2)]
    if rng.random() < 0.1:  # the label with number 0 right at the start
        out.append({"kind": rng.choice(["chords", "keys"]), "at": 0, "len": rng.choice([1, 2]), "id": 5, "raw": 0})
    return out


def generate(rng, tier, index):
    pieces = []
    for i in range(rng.choice([1, 1, 2])):
        piece = gen.rand_piece(rng, "a", f"p{i}", 2)
        if rng.random() < 0.3:
            piece["absent"] = ["harmonies"]
        if pieces and rng.random() < 0.5:  # much like the first one, at another pitch or speed
            piece = dict(pieces[0], name=f"p{i}", **rng.choice([{"shift": rng.randint(1, 3)}, {"ts": piece["ts"]},
                                                                {"seed": piece["seed"]}]))
        pieces.append(piece)
    label = rng.choice(["own", "own", "same", "none"])
    for piece in pieces:
        piece["label"] = {"own": piece["name"], "same": "0: a/p", "none": None}[label]
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3, 4] if tier == "thorough" else [1, 1, 2, 2, 3])):
        op = {"piece": rng.randrange(2), "forces": rand_forces(rng), "debug": int(rng.random() < 0.15),
              "batch": rng.choice([0, 0, 1, 2, 3, 7])}
        if rng.random() < 0.6:
            op["echo"] = 1
        if rng.random() < 0.25:
            op["fail"] = rng.randrange(1 << 15)
        ops.append(op)
    if len(ops) > 1 and rng.random() < 0.5:  # the same question again
        ops[-1]["piece"], ops[-1]["forces"] = ops[0]["piece"], ops[0]["forces"]
    return {"pieces": pieces, "model": joint.rand_model(rng), "ops": ops}


def usable(pieces):
    """Every piece has notes, and chords unless it is not annotated."""
    for piece in pieces:
        clean = tables.clean(piece_tables(piece))
        if not clean["notes"] or not (clean["chords"] or "harmonies" in piece.get("absent", [])):
            return False
    return bool(pieces)


def load(plan):
    from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs
    from harmonic_inference.data.piece import get_score_piece_from_data_frames

    _, measures, chords, notes = load_clean_corpus_dfs("corpus")
    out = []
    for index, spec in enumerate(plan["pieces"]):
        own = None if chords is None or "harmonies" in spec.get("absent", []) else chords.loc[index]
        out.append(get_score_piece_from_data_frames(
            notes.loc[index], own, measures.loc[index], name=spec["label"]))
    return out


def onsets(piece):
    """Indexes of the first note at every position."""
    notes = list(piece.get_inputs())
    return [i for i, note in enumerate(notes) if i == 0 or notes[i - 1].onset != note.onset]


def forces_of(op, piece):
    """The forces of a plan in terms of a piece."""
    from harmonic_inference.data.data_types import ChordType, KeyMode, PitchType
    from harmonic_inference.utils import harmonic_utils as hu

    starts = onsets(piece)
    count = len(piece.get_inputs())
    out = {}
    for force in op["forces"]:
        kind, which = force["kind"], force["at"] % len(starts)
        at = starts[which]
        if force["raw"]:
            at = force["at"] % (count + 1)
        pitch = 15 + (force["id"] % 5) - 2
        if kind.endswith("changes"):
            out.setdefault("forced_" + kind, set()).add(at)
            continue
        end = (starts + [count] * 4)[which + force["len"]]
        if force["raw"]:
            end = min(count, at + force["len"])
        if kind == "chords":
            label = hu.get_chord_one_hot_index(
                [ChordType.MAJOR, ChordType.MINOR, ChordType.MAJ_MIN7][force["id"] % 3], pitch, PitchType.TPC)
        else:
            label = hu.get_key_one_hot_index(
                [KeyMode.MAJOR, KeyMode.MINOR][force["id"] % 2], pitch, PitchType.TPC)
        if force["id"] % 16 == 5:
            label = 0
        if force["raw"] and force["id"] % 8 == 7:
            label = NO_LABEL
        if at < end:
            out.setdefault("forced_" + kind, {})[(at, end)] = label
    return out


def answer(model, piece, forces):
    """What a user gets to see of a decoding."""
    import logging

    from harmonic_inference.utils.eval_utils import get_annotation_df, log_state

    state = model.get_harmony(piece, **forces)
    if state is None:
        return None
    if logging.getLogger().isEnabledFor(logging.DEBUG):
        log_state(state, piece, model.CHORD_OUTPUT_TYPE, model.KEY_OUTPUT_TYPE)
    out = joint.describe(state, model)
    frame = get_annotation_df(state, piece, model.CHORD_OUTPUT_TYPE, model.KEY_OUTPUT_TYPE)
    out["table"] = [[norm(v) for v in row] for row in frame.itertuples(index=False, name=None)]
    return out


def echo(got, piece):
    """Forces that say what an answer says, and nothing else."""
    out = {}
    for name, labels, points in (("chord", got["chords"], got["changes"]), ("key", got["keys"], got["key_changes"])):
        out[f"forced_{name}s"] = {(a, b): label for label, a, b in zip(labels, points[:-1], points[1:])}
        out[f"forced_{name}_changes"] = set(points[1:-1])
        out[f"forced_{name}_non_changes"] = set(range(1, len(piece.get_inputs()))) - set(points)
    return out


def unforced(plan, model, piece, forces, got):
    """The log probability of the changes of an answer, if no other choice of changes leads to it."""
    import numpy as np
    from torch.utils.data import DataLoader

    import harmonic_inference.data.datasets as ds

    params = plan["model"]["params"]
    bound = params.get("min_chord_change_prob")
    if bound is None or bound != params.get("max_no_chord_change_prob"):
        return None
    for batch in DataLoader(ds.ChordTransitionDataset([piece], dummy_targets=True), batch_size=1):
        out, lengths = model.chord_transition_model.get_output(batch)
        probs = np.array(out[0][: lengths[0]].numpy(), dtype=float)
    given = set()
    for name in ("chord_changes", "key_changes", "chord_non_changes"):
        given |= set(forces.get("forced_" + name, ()))
    total = 0.0
    for i in set(onsets(piece)[1:]) - given:
        changed = i in got["changes"]
        if probs[i] == bound or changed != (probs[i] > bound):
            return None  # a chord which was put together from two ranges
        total += float(np.log(probs[i] if changed else 1 - probs[i]))
    for i in given - {0}:
        if i not in got["changes"] and i not in set(forces.get("forced_chord_non_changes", ())):
            return None
    return total


def history(plan):
    import copy
    import logging

    import harmonic_inference.data.datasets as ds

    def alone(op):
        piece = load(plan)[op["piece"] % len(plan["pieces"])]
        # transposition serves training only
        return answer(joint.make(dict(plan["model"], moved=0)), piece, forces_of(op, piece))

    expected, echoes, seen = [], [], {}
    for op in plan["ops"]:
        key = str((op["piece"] % len(plan["pieces"]), op["forces"]))
        if key not in seen:
            seen[key] = pristine(lambda: alone(op))
        expected.append(seen[key])
        again = None
        if op.get("echo") and seen[key][0] == "ok" and seen[key][1] and finite(seen[key][1]["log_prob"]):
            def repeat():
                piece = load(plan)[op["piece"] % len(plan["pieces"])]
                model = joint.make(plan["model"])
                got = answer(model, piece, echo(seen[key][1], piece))
                return got and dict(got, unforced=unforced(plan, model, piece, forces_of(op, piece), got))

            again = pristine(repeat)
        echoes.append(again)
    pieces = load(plan)
    before = [describe_piece(p) for p in pieces]
    model = joint.make(plan["model"])
    usual = {name: getattr(ds, name).valid_batch_size for name in BATCHED}
    results = []
    for op in plan["ops"]:
        piece = pieces[op["piece"] % len(pieces)]
        forces = forces_of(op, piece)
        given = copy.deepcopy(forces)
        for name in BATCHED:
            if op["batch"]:
                getattr(ds, name).valid_batch_size = op["batch"]
        if op["debug"]:
            logging.getLogger().setLevel(logging.DEBUG)
        fired = False
        try:
            if op.get("fail") is not None:
                error = MemoryError("injected") if op["fail"] % 2 else KeyboardInterrupt()
                fired, (status, value) = fail_at(lambda: answer(model, piece, forces), op["fail"], error)
            else:
                status, value = "ok", answer(model, piece, forces)
        except Exception as error:
            import traceback

            status, value = "error", error
            print(traceback.format_exc())
        finally:
            logging.getLogger().setLevel(logging.WARNING)
            for name in BATCHED:
                getattr(ds, name).valid_batch_size = usual[name]
        if status == "error":
            value = f"{type(value).__name__}: {value}"[:400]
        if fired:
            probe("failure_during_decoding")
        results.append({"status": status, "value": value, "fired": fired, "forces": given,
                        "kept": forces == given})
    after = [describe_piece(p) for p in pieces]
    facts = [{"starts": onsets(p), "count": len(p.get_inputs())} for p in pieces]
    return expected, echoes, results, before, after, facts


def contradictory(forces, fact):
    """Why forces cannot be obeyed, or None."""
    count, starts = fact["count"], set(fact["starts"])
    sets, ids = {}, {}
    for name in ("chord", "key"):
        yes = set(forces.get(f"forced_{name}_changes", ())) - {0}
        no = set(forces.get(f"forced_{name}_non_changes", ())) - {0}
        if any(i >= count for i in yes | no):
            return f"{name} index beyond the piece"
        if yes & no:
            return f"{name} change forced and forbidden"
        if yes - starts:
            return f"{name} change inside an onset"
        flat = [-1] * count
        for (start, end), label in forces.get(f"forced_{name}s", {}).items():
            if label >= NO_LABEL:
                return f"no such {name}"
            for i in range(start, end):
                if flat[i] not in (-1, label):
                    return f"two {name}s on one note"
                flat[i] = label
        sets[name], ids[name] = (yes, no), flat
    pair = {name: (lambda i, flat=flat: (flat[i - 1], flat[i])) for name, flat in ids.items()}
    for name in ("chord", "key"):
        for i in sets[name][0]:
            if pair[name](i)[0] == pair[name](i)[1] != -1:
                return f"{name} change within one forced {name}"
        for i in sets[name][1]:
            if -1 not in pair[name](i) and pair[name](i)[0] != pair[name](i)[1]:
                return f"no {name} change between two forced {name}s"
    for i in sets["key"][0]:
        if i in sets["chord"][1] or pair["chord"](i)[0] == pair["chord"](i)[1] != -1:
            return "key change within a chord"
    for i in sets["chord"][1]:
        if -1 not in pair["key"](i) and pair["key"](i)[0] != pair["key"](i)[1]:
            return "key change where no chord may change"
    return None


def easy(plan, forces):
    """Forces that a search over usual chords can obey: no labels, only changes and non-changes."""
    return plan["model"].get("sane") and not forces.get("forced_chords") and not forces.get("forced_keys")


def finite(x):
    return x == x and abs(x) != float("inf")


def spans(labels, changes):
    out = []
    for label, start, end in zip(labels, changes[:-1], changes[1:]):
        out.extend([label] * (end - start))
    return out


def check_answer(ctx, got, fact, forces, what):
    """The annotation is one of this piece and does what it was forced to."""
    changes, keys = got["changes"], got["key_changes"]
    for name, points, labels in (("chord", changes, got["chords"]), ("key", keys, got["keys"])):
        ctx.check(points[:1] == [0] and points[-1] == fact["count"] and len(points) == len(labels) + 1
                  and all(a < b for a, b in zip(points[:-1], points[1:])), "not-the-whole-piece",
                  lambda: f"{what}: {name} changes {points} over {fact['count']} notes")
        ctx.check(set(points[:-1]) <= set(fact["starts"]), "change-inside-an-onset",
                  lambda: f"{what}: {name} changes {points}, onsets start at {fact['starts']}")
        ctx.check(all(a != b for a, b in zip(labels[:-1], labels[1:])), "change-without-change",
                  lambda: f"{what}: {name}s {labels} at {points}")
    ctx.check(set(keys) <= set(changes), "key-changes-within-chord",
              lambda: f"{what}: keys change at {keys}, chords at {changes}")
    for name, points, labels in (("chord", changes, got["chords"]), ("key", keys, got["keys"])):
        inner = set(points[1:-1])
        ctx.check(set(forces.get(f"forced_{name}_changes", ())) - {0} <= inner, "forced-change-missing",
                  lambda: f"{what}: {name}s change at {sorted(inner)}, forced {forces}")
        ctx.check(not set(forces.get(f"forced_{name}_non_changes", ())) & inner, "forbidden-change",
                  lambda: f"{what}: {name}s change at {sorted(inner)}, forced {forces}")
        flat = spans(labels, points)
        for (start, end), label in forces.get(f"forced_{name}s", {}).items():
            ctx.check(flat[start:end] == [label] * (end - start), "forced-label-ignored",
                      lambda: f"{what}: {name}s {flat[start:end]} on {start}-{end}, forced {forces}")


def execute(ctx, plan):
    if not plan["pieces"] or not plan["ops"] or not usable(plan["pieces"]):
        raise Invalid()
    write_corpus(os.path.join(ctx.path("disk"), "corpus"), plan["pieces"])
    out = ctx.spawn(history, plan, root=ctx.path("disk"), fs={"listing": [], "faults": []})
    ctx.check(out.ok, "decoding-process-failed", lambda: f"{out} {out.tb}")
    expected, echoes, results, before, after, facts = out.value
    for number, (op, want, again, got) in enumerate(zip(plan["ops"], expected, echoes, results)):
        ctx.event("decode", number, repr(got))
        if number or op["forces"]:
            ctx.nontrivial = True
        what = f"decoding {number} of piece {op['piece'] % len(plan['pieces'])}"
        ctx.check(want[0] == "ok" or want[1].startswith("ArgumentError"), "decoding-crashes",
                  lambda: f"{what} with a fresh model: {want[1]} {want[2:]}")
        fact = facts[op["piece"] % len(facts)]
        conflict = contradictory(got["forces"], fact)
        ctx.check((conflict is not None) == (want[0] != "ok"), "contradiction-not-reported" if conflict
                  else "forces-refused", lambda: f"{what}: {got['forces']} ({conflict}): {want[:2]}")
        ctx.check(got["kept"], "forces-changed",
                  lambda: f"{what}: the given forces {got['forces']} were modified")
        if got["fired"]:
            ctx.fault("failure_during_decoding")
            continue
        if want[0] != "ok":
            ctx.probe("forces_refused")
            ctx.check(got["status"] == "error" and got["value"] == want[1][:400], "depends-on-history",
                      lambda: f"{what}: {got['value']} instead of {want[1]}")
            continue
        ctx.check(got["status"] == "ok", "decoding-crashes", lambda: f"{what}: {got['value']} {out.stdout[-1500:]}")
        want = want[1]
        ctx.probe("annotated" if want else "no_annotation")
        ctx.check(want is not None or not easy(plan, got["forces"]), "no-answer",
                  lambda: f"{what}: forced {got['forces']}")
        if again:
            ctx.probe("own_answer_forced")
            ctx.check(again[0] == "ok" and again[1] is not None and all(
                again[1][k] == want[k] for k in ("chords", "changes", "keys", "key_changes")),
                "own-answer-not-reproduced", lambda: f"{what}: {again} instead of {want}")
            if again[1]["unforced"] is not None:
                ctx.probe("score_recomputed")
                alone = again[1]["log_prob"] + again[1]["unforced"]
                ctx.check(not finite(alone) or abs(alone - want["log_prob"]) < 1e-3 + 1e-5 * abs(alone),
                          "score-of-another-path",
                          lambda: f"{what}: scored {want['log_prob']}, on its own {alone} ({want})")
        if want is not None:
            check_answer(ctx, want, fact, got["forces"], what + " (fresh)")
            if got["forces"]:
                ctx.probe("forces_obeyed")
            ctx.probe("with_key_change", int(len(want["keys"]) > 1))
            ctx.probe("with_chord_change", int(len(want["chords"]) > 1))
            ctx.probe("impossible", int(want["log_prob"] == float("-inf") or want["log_prob"] != want["log_prob"]))
        ctx.check(repr(got["value"]) == repr(want), "depends-on-history",
                  lambda: f"{what}: {got['value']} instead of {want}")
    ctx.check(before == after, "piece-changed", lambda: first_difference(after, before))
