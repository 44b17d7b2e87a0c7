"""What every item of every data set must say, straight from the pieces (reference model).

Only Chord/Key/Note vectors of single objects are taken from the code under test; which object
goes into which row of which item, padding, reduction, transposition and targets are redone
here.  Inputs are compared in half precision, the precision data sets are stored in.
"""
import copy

CLASSES = ["ChordTransitionDataset", "ChordClassificationDataset", "ChordSequenceDataset",
           "KeyTransitionDataset", "KeySequenceDataset"]


def rand_options(rng, name):
    """Constructor options of a data set class, as plain data."""
    if name == "ChordClassificationDataset":
        low = rng.choice([0, 0, -1, -3, -12])
        high = rng.choice([0, 0, 1, 2, 14])
        out = {"reduction": rng.choice([0, 0, 1, 2]), "use_inversions": rng.randrange(2),
               "transposition_range": [low, min(high, low + 5) if low else min(high, 15)]}
        if high == 14 and not low:
            out["transposition_range"] = [11, 14]
        return out
    if name == "ChordSequenceDataset":
        return {"input_reduction": rng.choice([0, 0, 1, 2]), "use_inversions_input": rng.randrange(2),
                "output_reduction": rng.choice([0, 0, 1, 2]),
                "use_inversions_output": rng.randrange(2), "pitch_based": int(rng.random() < 0.25)}
    if name.startswith("Key"):
        return {"reduction": rng.choice([0, 0, 1, 2]), "use_inversions": rng.randrange(2)}
    return {}


def kwargs(options):
    """Options as the constructor wants them."""
    from harmonic_inference.data.data_types import ALL_ONE_TYPE_REDUCTION, TRIAD_REDUCTION

    out = {}
    for key, value in options.items():
        if "reduction" in key:
            out[key] = (None, TRIAD_REDUCTION, ALL_ONE_TYPE_REDUCTION)[value]
        elif key == "transposition_range":
            out[key] = tuple(value)
        else:
            out[key] = bool(value)
    # a reduction to fewer inversions than the chord has is refused by the code
    for red, inv in (("reduction", "use_inversions"), ("output_reduction", "use_inversions_output")):
        if out.get(red) and "transposition_range" in options and red == "reduction":
            out[inv] = False
        if out.get(red) and red == "output_reduction":
            out[inv] = False
    return out


def reduced(chord, reduction, inversions):
    chord = copy.copy(chord)
    if reduction:
        chord.chord_type = reduction[chord.chord_type]
    if not inversions:
        chord.inversion = 0
    return chord


def half(rows):
    import numpy as np

    return np.array(rows, dtype=np.float64).astype(np.float16)


def reference(name, pieces, opts):
    """The list of items: dicts of inputs (unpadded rows), length, targets."""
    return {
        "ChordTransitionDataset": _ctd, "ChordClassificationDataset": _ccd,
        "ChordSequenceDataset": _csd, "KeyTransitionDataset": _ktd, "KeySequenceDataset": _ksd,
    }[name](pieces, opts)


def _ctd(pieces, _opts):
    out = []
    for piece in pieces:
        gaps = list(piece.get_duration_cache())
        notes = list(piece.get_inputs())
        rows, targets = [], []
        changes = set(int(i) for i in piece.get_chord_change_indices())
        for i, note in enumerate(notes):
            before = gaps[i - 1] if i else None
            rows.append(note.to_vec(dur_from_prev=before, dur_to_next=gaps[i]))
            if i == 0 or gaps[i - 1] == 0:
                targets.append(-100)
            else:
                targets.append(1 if i in changes else 0)
        out.append({"inputs": half(rows), "length": len(rows), "targets": targets})
    return out


def _ccd(pieces, opts):
    from harmonic_inference.utils import harmonic_constants as hc

    out = []
    low, high = opts.get("transposition_range", (0, 0))
    for piece in pieces:
        for chord, rows in zip(piece.get_chords(), piece.get_chord_note_inputs()):
            rows = half(rows)
            pitches = hc.NUM_PITCHES[chord.pitch_type]
            for shift in range(low, high + 1):
                out.append(_one_chord(chord, rows, shift, pitches, opts))
    return out


def _one_chord(chord, rows, shift, pitches, opts):
    from harmonic_inference.utils.harmonic_utils import get_bass_note, get_vector_from_chord_type

    moved = copy.copy(chord)
    moved.root = chord.root + shift
    new = rows.copy()
    valid = 0 <= moved.root < pitches
    if valid and shift:
        for i, row in enumerate(rows):
            if not row.any():
                continue
            at = int((row[:pitches] == 1).argmax())
            if not 0 <= at + shift < pitches:
                valid = False
                break
            new[i, at] = 0
            new[i, at + shift] = 1
    if valid:
        small = reduced(moved, opts.get("reduction"), opts.get("use_inversions", True))
        try:
            extra = {
                "root": int(small.root),
                "bass": int(get_bass_note(small.chord_type, small.root, small.inversion,
                                          small.pitch_type)),
                "pitches": [int(x) for x in get_vector_from_chord_type(
                    small.chord_type, small.pitch_type, small.root)],
            }
        except ValueError:
            valid = False
    if not valid:
        return {"inputs": None, "length": -1, "targets": [-1],
                "extra": {"root": -1, "bass": -1, "pitches": [0] * pitches}}
    target = moved.get_one_hot_index(relative=False, use_inversion=opts.get("use_inversions", True),
                                     pad=False, reduction=opts.get("reduction"))
    return {"inputs": new, "length": len(rows), "targets": [int(target)], "extra": extra}


def _rows(piece, opts, pad, red, inv):
    """Chord rows with key-change marks; chords and keys with their ranges."""
    import numpy as np

    from harmonic_inference.data.key import get_key_change_vector_length

    chords, keys = list(piece.get_chords()), list(piece.get_keys())
    starts = [int(i) for i in piece.get_key_change_indices()]
    width = 1 + get_key_change_vector_length(keys[0].tonic_type, one_hot=False)
    rows = []
    for i, chord in enumerate(chords):
        small = reduced(chord, opts.get(red), opts.get(inv, True))
        mark = np.zeros(width)
        which = starts.index(i) if i in starts else 0
        if which:
            mark[:-1] = keys[which - 1].get_key_change_vector(keys[which])
            mark[-1] = 1
        rows.append(np.concatenate([small.to_vec(pad=pad), mark]))
    return rows, chords, keys, starts, width


def _csd(pieces, opts):
    from harmonic_inference.data.data_types import PitchType
    from harmonic_inference.utils import harmonic_constants as hc
    from harmonic_inference.utils.harmonic_utils import get_vector_from_chord_type

    out = []
    for piece in pieces:
        rows, chords, keys, starts, _ = _rows(piece, opts, False, "input_reduction",
                                              "use_inversions_input")
        targets = [int(c.get_one_hot_index(relative=True, pad=False,
                                           use_inversion=opts.get("use_inversions_output", True),
                                           reduction=opts.get("output_reduction"))) for c in chords]
        if opts.get("pitch_based"):
            tpc = chords[0].pitch_type == PitchType.TPC
            count = hc.MAX_RELATIVE_TPC - hc.MIN_RELATIVE_TPC if tpc else 12
            new = []
            for i, chord in enumerate(chords):
                if i == 0 or i in starts:
                    new.append([-100] * count)
                    continue
                rel = chord.root - chord.key_tonic - (hc.MIN_RELATIVE_TPC if tpc else 0)
                rel = rel if tpc else rel % 12
                kind = reduced(chord, opts.get("output_reduction"), True).chord_type
                vec = get_vector_from_chord_type(kind, chord.pitch_type, root=rel)
                if any(vec[count:]):
                    new = None  # the code refuses to lose pitches
                    break
                new.append([int(v) for v in vec[:count]])
            targets = new
        out.append({"inputs": half(rows), "length": len(rows), "targets": targets})
    return out


def _replacement(chords, end, key, opts, width):
    import numpy as np

    small = reduced(chords[end], opts.get("reduction"), opts.get("use_inversions", True))
    return np.concatenate([small.to_vec(relative_to=key, pad=True), np.zeros(width)])


def _ktd(pieces, opts):
    out = []
    for piece in pieces:
        rows, chords, keys, starts, width = _rows(piece, opts, True, "reduction", "use_inversions")
        ends = starts[1:] + [len(chords)]
        for key, start, end in zip(keys, starts, ends):
            mine = rows[:end]
            targets = [0 if start < i else -100 for i in range(end)]
            if end < len(chords):
                mine = mine + [_replacement(chords, end, key, opts, width)]
                targets.append(1)
            out.append({"inputs": half(mine), "length": len(mine), "targets": targets})
    return out


def _ksd(pieces, opts):
    out = []
    for piece in pieces:
        rows, chords, keys, starts, width = _rows(piece, opts, True, "reduction", "use_inversions")
        for key, nxt, end in zip(keys[:-1], keys[1:], starts[1:]):
            mine = rows[:end] + [_replacement(chords, end, key, opts, width)]
            out.append({"inputs": half(mine), "length": len(mine),
                        "targets": [int(key.get_key_change_one_hot_index(nxt))]})
    return out


def observed(item):
    """One __getitem__ result (or one row of a collated batch) in the reference's terms."""
    import numpy as np

    inputs = np.asarray(item["inputs"])
    length = int(np.asarray(item["input_lengths"]))
    targets = np.asarray(item["targets"])
    if "target_lengths" in item:
        targets = targets[: int(np.asarray(item["target_lengths"]))]
    elif targets.ndim:
        targets = targets[:length]
    out = {"inputs": half(inputs[:length]) if length >= 0 else None, "length": length,
           "targets": np.atleast_1d(targets).tolist(), "shape": tuple(inputs.shape)}
    if length < 0 and inputs.any():
        out["inputs"] = half(inputs)
    if "intermediate_targets" in item:
        extra = item["intermediate_targets"]
        out["extra"] = {"root": int(np.asarray(extra["root"])), "bass": int(np.asarray(extra["bass"])),
                        "pitches": [int(x) for x in np.asarray(extra["pitches"])]}
    return out


def everything(item):
    """All of a __getitem__ result including its padding, comparable with ==."""
    import numpy as np

    if isinstance(item, dict):
        return {key: everything(value) for key, value in item.items()}
    if isinstance(item, (tuple, list)):
        return [everything(value) for value in item]
    return np.asarray(item).astype(float).tolist()


def difference(got, want):
    """None, or how an observed item differs from the reference item."""
    import numpy as np

    if got["length"] != want["length"]:
        return f"length {got['length']} instead of {want['length']}"
    if (got["inputs"] is None) != (want["inputs"] is None):
        return "inputs of an out-of-range transposition are not blank"
    if want["inputs"] is not None:
        if got["inputs"].shape != want["inputs"].shape:
            return f"inputs have shape {got['inputs'].shape} instead of {want['inputs'].shape}"
        bad = np.argwhere(got["inputs"] != want["inputs"])
        if len(bad):
            row, col = bad[0]
            return (f"input row {row}, entry {col} is {got['inputs'][row, col]} instead of "
                    f"{want['inputs'][row, col]} ({len(bad)} entries differ)")
    if list(got["targets"]) != list(want["targets"]):
        return f"targets {str(got['targets'])[:300]} instead of {str(want['targets'])[:300]}"
    if "extra" in want and got.get("extra") != want["extra"]:
        return f"intermediate targets {got.get('extra')} instead of {want['extra']}"
    return None


def load_annotated(plan_pieces):
    """The annotated pieces of the corpus on this simulated disk."""
    from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs
    from harmonic_inference.data.piece import get_score_piece_from_data_frames

    _, measures, chords, notes = load_clean_corpus_dfs("corpus")
    return [get_score_piece_from_data_frames(notes.loc[i], chords.loc[i], measures.loc[i])
            for i in range(len(plan_pieces))]
