"""P15: using a piece never changes what it says."""
import os
import pickle

from dst import gen, model
from dst.common import (ASSUME_PY, STUB_DISK, STUB_TORCH, describe_piece, first_difference, norm,
                        plain)
from dst.interrupt import fail_at, pristine, steps
from dst.kernel import Invalid
from dst.proc import probe
from dst.props.p03 import piece_tables, write_corpus

PROPERTY = "P15"
BUDGET = {
    "quick": {"runs": 150, "wall_s": 420},
    "thorough": {"runs": 4000, "wall_s": 3300},
}
RULE = (
    "one run = 1-2 generated pieces held in one process and a seeded interleaved history of 3-9 operations "
    "on them (feature extraction with various windows and ranges, caches, range queries, vectors, storing "
    "and restoring, rebuilding with other options, data sets), some of them hit by an allocation failure or "
    "interrupt at a seeded line step; every answer is compared with the same operation on an untouched "
    "fork; non-trivial = a failure was injected or a later operation followed a different earlier one"
)
REAL = ["ScorePiece, Chord, Key, Note", "get_score_piece_from_dict / _from_data_frames", "data sets"]
STUBS = [STUB_DISK, STUB_TORCH]
ASSUMPTIONS = [ASSUME_PY]
DATASETS = ["ChordTransitionDataset", "ChordClassificationDataset", "ChordSequenceDataset",
            "KeyTransitionDataset", "KeySequenceDataset"]
KINDS = ["inputs", "inputs", "ranges", "ranges", "durations", "within", "key_inputs", "vectors", "dict",
         "restore", "restore", "restore", "pickle", "rebuild", "rebuild", "dataset", "labels"]


def generate(rng, tier, index):
    pieces = []
    for i in range(rng.choice([1, 1, 2])):
        piece = gen.rand_piece(rng, "a", f"p{i}", 3)
        if rng.random() < 0.2:
            piece["absent"] = ["harmonies"]
        pieces.append(piece)
    ops = []
    for _ in range(rng.randint(3, 9)):
        op = {"kind": rng.choice(KINDS), "piece": rng.randrange(2), "a": rng.randrange(64),
              "b": rng.randrange(64)}
        if rng.random() < 0.25:
            op["fail"] = rng.randrange(1 << 14)
        ops.append(op)
    return {"pieces": pieces, "ops": ops}


def frame_key(frame):
    if frame is None:
        return None
    return [tuple(frame.columns)] + [tuple(norm(v) for v in row)
                                     for row in frame.itertuples(index=True, name=None)]


def describe(piece):
    out = describe_piece(piece)
    out["duration_cache"] = plain(piece.get_duration_cache())
    return out


def perform(state, op):
    """Do one operation; returns plain data.  state: {"piece", "frames", "name"}."""
    import numpy as np

    from harmonic_inference.data import datasets
    from harmonic_inference.data.chord import Chord  # noqa: F401
    from harmonic_inference.data.data_types import TRIAD_REDUCTION, NO_REDUCTION, PitchType
    from harmonic_inference.data.piece import (get_score_piece_from_data_frames,
                                               get_score_piece_from_dict)

    piece, kind, a, b = state["piece"], op["kind"], op["a"], op["b"]
    annotated = piece.get_chords() is not None
    n = len(piece.get_inputs())
    if kind == "inputs" and annotated:
        return [plain(np.round(x, 9)) for x in piece.get_chord_note_inputs(window=a % 4)]
    if kind in ("ranges", "inputs"):
        cuts = sorted({0, a % n, b % n})
        ends = cuts[1:] + [n]
        ranges = [(max(0, s - b % 2), e) for s, e in zip(cuts, ends)]
        return [plain(np.round(x, 9)) for x in piece.get_chord_note_inputs(
            window=b % 3, ranges=ranges, change_indices=cuts)]
    if kind == "durations":
        return plain(piece.get_duration_cache())
    if kind == "within":
        start = a % n
        stop = None if b % 3 == 0 else start + b % (n - start + 1)
        return [plain(c) for c in piece.get_chords_within_range(start, stop)]
    if kind == "key_inputs":
        return plain(piece.get_key_change_input_indices())
    if kind == "vectors":
        out = [plain(note.to_pitch_type(PitchType.MIDI)) for note in list(piece.get_inputs())[:2]]
        if annotated:
            for chord in piece.get_chords():
                out.append(plain(chord.to_vec(reduction=TRIAD_REDUCTION if a % 2 else NO_REDUCTION)))
                out.append(plain(chord.get_one_hot_index(relative=bool(b % 2))))
                out.append(plain(chord.to_pitch_type(PitchType.MIDI)))
            keys = list(piece.get_keys())
            for one, two in zip(keys[:-1], keys[1:]):
                out.append(plain(one.get_key_change_vector(two)))
            out.extend(plain(k.to_pitch_type(PitchType.MIDI)) for k in keys)
        return out
    if kind in ("dict", "restore") and annotated:
        stored = piece.to_dict()
        if kind == "restore" and a & 1:  # what was stored once may be restored several times
            stored = state.setdefault("stored", stored)
        if kind == "dict":
            return plain(stored)
        again = get_score_piece_from_dict(piece.measures_df, stored if a & 3 else pickle.loads(pickle.dumps(stored)),
                                          name=piece.name)
        state["piece"] = again
        return describe(again)
    if kind in ("pickle", "dict", "restore"):
        again = pickle.loads(pickle.dumps(piece))
        state["piece"] = again
        return describe(again)
    if kind == "rebuild":
        notes, chords, measures = state["frames"]
        again = get_score_piece_from_data_frames(
            notes, chords, measures, use_inversions=bool(a & 1), use_relative=bool(a & 2),
            use_suspensions=bool(a & 4),
            chord_reduction=TRIAD_REDUCTION if a & 8 else NO_REDUCTION, name=piece.name)
        return describe(again)
    if kind == "labels":
        if not annotated:
            return None
        from harmonic_inference.utils.eval_utils import get_labels_df

        return frame_key(get_labels_df(piece, tpc_c=14 if a % 2 else 0))
    if kind == "dataset":
        if not annotated:
            return None
        made = getattr(datasets, DATASETS[a % len(DATASETS)])([piece])
        out = {}
        for name in ("inputs", "targets", "input_lengths", "target_lengths", "key_change_replacements"):
            value = getattr(made, name, None)
            out[name] = [plain(np.asarray(v, dtype=float)) for v in value] if value is not None else None
        return out
    raise AssertionError(kind)


def history(plan):
    from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs
    from harmonic_inference.data.piece import get_score_piece_from_data_frames

    _, measures, chords, notes = load_clean_corpus_dfs("corpus")
    states, frames_before = [], []
    for index, spec in enumerate(plan["pieces"]):
        own = None
        if chords is not None and "harmonies" not in spec.get("absent", []):
            own = chords.loc[index]
        frames = (notes.loc[index], own, measures.loc[index])
        frames_before.append([frame_key(f) for f in frames])
        piece = get_score_piece_from_data_frames(*frames, name=spec["name"])
        states.append({"piece": piece, "frames": frames, "name": spec["name"]})

    expected = {}
    for number, op in enumerate(plan["ops"]):
        state = states[op["piece"] % len(states)]
        value = pristine(lambda: perform(dict(state), op))
        count = None
        if op.get("fail") is not None and value[0] == "ok":
            counted = pristine(lambda: steps(lambda: perform(dict(state), op)))
            count = counted[1] if counted[0] == "ok" else None
        expected[number] = (value, count)
    fresh = [pristine(lambda s=s: describe(s["piece"])) for s in states]

    trouble = []
    for number, op in enumerate(plan["ops"]):
        state = states[op["piece"] % len(states)]
        want, count = expected[number]
        if count:
            at = op["fail"] % count
            error = MemoryError("injected") if op["fail"] % 2 else KeyboardInterrupt("injected")
            kept = state["piece"]
            fired, (status, value) = fail_at(lambda: perform(state, op), at, error)
            probe("operation_interrupted" if status == "error" else "interrupt_survived")
            if status == "error":
                state["piece"] = kept  # the caller never got a new one
        try:
            got = ("ok", perform(state, op))
        except Exception as error:
            got = ("error", f"{type(error).__name__}: {error}"[:400])
        if got[:2] != want[:2]:
            where = first_difference(got[1], want[1]) if got[0] == want[0] == "ok" else \
                f"{got[:2]} instead of {want[:2]}"
            trouble.append(("answer-depends-on-history", f"operation {number} {op}: {where}"[:1500]))
            break
    if not trouble:
        for index, state in enumerate(states):
            got = ("ok", describe(state["piece"]))
            if got != fresh[index]:
                trouble.append(("piece-changed", f"piece {index}: "
                                                 f"{first_difference(got[1], fresh[index][1])}"[:1500]))
            for which, frame in enumerate(state["frames"]):
                if frame_key(frame) != frames_before[index][which]:
                    trouble.append(("source-tables-changed", f"piece {index}, table {which}"))
    return trouble, [(n, v[0][0], str(v[0][1])[:2000]) for n, v in expected.items()]


def execute(ctx, plan):
    pieces = plan["pieces"]
    if not pieces or not plan["ops"] or len({p["name"] for p in pieces}) < len(pieces):
        raise Invalid()
    cleaned = [model.clean(piece_tables(p)) for p in pieces]
    if any(not c["notes"] for c in cleaned) or any(
            "harmonies" not in p.get("absent", []) and not c["chords"] for p, c in zip(pieces, cleaned)):
        raise Invalid()
    disk = ctx.path("disk")
    write_corpus(os.path.join(disk, "corpus"), pieces)
    out = ctx.spawn(history, plan, root=disk, fs={})
    ctx.check(out.ok, "piece-cannot-be-used", lambda: f"{out} {out.tb}")
    trouble, answers = out.value
    ctx.event("answers", answers)
    for name in ("operation_interrupted",):
        if out.probes.get(name):
            ctx.fault("interrupt", out.probes[name])
    ctx.nontrivial = len({o["kind"] for o in plan["ops"]}) > 1
    ctx.probe("operation_refused", sum(a[1] != "ok" for a in answers))
    for kind, detail in trouble:
        ctx.violate(kind, detail)
