"""annotate.py and test.py as simulated programs, and an independent account of their output.

The programs run for real, from argument parsing to the written files.  Only the decoder's
answer is scripted: the plan's estimates are looked up by the exact notes and forced labels the
decoder is asked about, so an answer can only come out for the right question.
"""
import hashlib
import json
import os
from fractions import Fraction

from dst import joint, refpiece
from dst.boot import REPO
from dst.common import norm, plain
from dst.proc import run_script

KINDS = list(refpiece.TYPES.values())  # (name, chord tones), in the order of one-hot labels
SHORT = list(refpiece.TYPES)
ROOTS = range(refpiece.PITCHES)
MIDI = ["C", "C#/Db", "D", "D#/Eb", "E", "F", "F#/Gb", "G", "G#/Ab", "A", "A#/Bb", "B"]
TRIAD_OF = {"M": "M", "m": "m", "o": "o", "+": "+", "MM7": "M", "Mm7": "M", "mM7": "m", "mm7": "m",
            "o7": "o", "%7": "o", "+7": "+", "+M7": "+"}
FORCE_SETS = ("forced_chord_changes", "forced_chord_non_changes", "forced_key_changes",
              "forced_key_non_changes")
FORCE_MAPS = ("forced_chords", "forced_keys")
CHECKPOINTS = {"ccm": "SimpleChordClassifier", "ctm": "SimpleChordTransitionModel",
               "csm": "SimpleChordSequenceModel", "ktm": "SimpleKeyTransitionModel",
               "ksm": "SimpleKeySequenceModel"}


# -- labels ----------------------------------------------------------------------------------
def inversions(kind):
    return len(refpiece.TYPES[kind][1])


def chord_number(root, kind, inversion):
    """The number by which the decoder names a chord."""
    number = 0
    for other in SHORT:
        if other == kind:
            return number + root * inversions(kind) + inversion
        number += len(ROOTS) * inversions(other)
    raise KeyError(kind)


def key_number(tonic, minor):
    return tonic + (len(ROOTS) if minor else 0)


def pitch_name(pitch):
    letter, accidentals = "FCGDAEB"[pitch % 7], pitch // 7 - 2
    return letter + ("#" * accidentals if accidentals > 0 else "b" * -accidentals)


def midi_name(pitch):
    return MIDI[(pitch - refpiece.C) * 7 % 12]


def chord_text(chord, name=pitch_name):
    root, kind, inversion = chord
    return f"{name(root)}:{kind}, inv:{inversion}"


def key_text(key, name=pitch_name):
    tonic, minor = key
    text = name(tonic)
    return f"{text.lower() if minor else text}:KeyMode.{'MINOR' if minor else 'MAJOR'}"


# -- a scripted decoder ----------------------------------------------------------------------
def question(notes, forces):
    """The identity of one request to the decoder."""
    clean = {}
    for name, value in forces.items():
        if isinstance(value, dict):
            clean[name] = sorted([[int(a), int(b)], int(c)] for (a, b), c in value.items())
        elif isinstance(value, (set, frozenset, list, tuple)):
            clean[name] = sorted(int(v) for v in value)
    clean = {k: v for k, v in clean.items() if v}
    return hashlib.sha256(json.dumps([notes, clean], sort_keys=True).encode()).hexdigest()


def chain(estimate):
    """A decoded state: [[end, chord number, key number], ...]."""
    from harmonic_inference.models.joint_model import State

    state = State(key=estimate[0][2], change_index=0)
    for end, chord, key in estimate:
        state = State(chord=chord, key=key, change_index=end, prev_state=state, log_prob=-1.0 * end)
    return state


def run(script, argv, answers, fail=None):
    """The program, with the decoder's answers scripted; the one with number `fail` fails instead."""
    import logging

    import pytorch_lightning as pl

    import harmonic_inference.models.joint_model as jm

    made, asked_before = {}, []

    def build(cls):
        if not made:
            models = joint.sub_models({"weights": 1, "scale": 1, "pitch_based": 0})
            made.update({type(m).__name__: m for m in models.values()})
        return made[cls.__name__]

    def get_harmony(self, piece, **forces):
        asked = question([plain(n) for n in piece.get_inputs()], forces)
        if asked not in answers:
            raise LookupError(f"the decoder was asked about {piece.name} with {forces}: "
                              "not the notes or forces of any piece")
        asked_before.append(asked)
        if len(asked_before) - 1 == fail:
            raise MemoryError("injected into the decoder")
        answer = answers[asked]
        return None if answer is None else chain(answer)

    pl.BUILD = build
    jm.HarmonicInferenceModel.get_harmony = get_harmony
    logging.getLogger().handlers[:] = []
    run_script(os.path.join(REPO, script), argv)


def write_checkpoints(root):
    for name, cls in CHECKPOINTS.items():
        folder = os.path.join(root, "ckpt", name, "lightning_logs", "version_0", "checkpoints")
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, "e.ckpt"), "w") as out:
            json.dump({"class": cls, "tag": name, "end": 1}, out)
    os.makedirs(os.path.join(root, "ckpt", "icm"), exist_ok=True)
    length = sum(inversions(k) for k in SHORT) * 29
    with open(os.path.join(root, "ckpt", "icm", "initial_chord_prior.json"), "w") as out:
        json.dump({"pitch_type": "PitchType.TPC", "inversions_present": True, "reduction_present": None,
                   "major": [1 / length] * length, "minor": [1 / length] * length}, out)


# -- what the files must say -----------------------------------------------------------------
def per_note(ref):
    """(chord, key) of the annotation at every note, or None; chord and key as plain tuples."""
    if ref["chords"] is None:
        return None
    count = len(ref["notes"])
    names = {kind: short for short, (kind, _) in refpiece.TYPES.items()}
    chords, keys = [None] * count, [None] * count
    changes = [int(c) for c in ref["chord_changes"]]
    for chord, start, end in zip(ref["chords"], changes, changes[1:] + [count]):
        value = (int(chord["root"]), names[chord["chord_type"].split(".")[1]], int(chord["inversion"]))
        chords[start:end] = [value] * max(0, end - start)
    key_changes = [changes[int(k)] for k in ref["key_changes"]]
    for key, start, end in zip(ref["keys"], key_changes, key_changes[1:] + [count]):
        value = (int(key["relative_tonic"]), key["relative_mode"] == "KeyMode.MINOR")
        keys[start:end] = [value] * max(0, end - start)
    return chords, keys


def estimate(rng, ref, none=0.1, agree=0.6):
    """A seeded answer for one piece: (chords, keys) per note, or None."""
    count = len(ref["notes"])
    truth = per_note(ref)
    if rng.random() < none:
        return None
    cuts = sorted({0, count} | {rng.randrange(count) for _ in range(rng.randint(0, 5))})
    if truth and rng.random() < agree:
        cuts = sorted(set(cuts) | {int(c) for c in ref["chord_changes"]})
    chords, keys = [], []
    key = (rng.randrange(5, 25), rng.random() < 0.5)
    for start, end in zip(cuts, cuts[1:]):
        kind = rng.choice(SHORT)
        chord = (rng.randrange(len(ROOTS)), kind, rng.randrange(inversions(kind)))
        if rng.random() < 0.3:
            key = (rng.randrange(len(ROOTS)), rng.random() < 0.5)
        if truth and truth[0][start] is not None and rng.random() < 0.8:
            root, kind, inversion = truth[0][start]
            how = rng.randrange(5)
            if how == 1:
                inversion = rng.randrange(inversions(kind))
            elif how == 2:
                kind = rng.choice([k for k in SHORT if TRIAD_OF[k] == TRIAD_OF[kind]])
                inversion %= inversions(kind)
            elif how == 3:
                kind = rng.choice(SHORT)
                inversion = 0
            chord = (root, kind, inversion)
            tonic, minor = truth[1][start]
            key = rng.choice([(tonic, minor), (tonic, minor), (tonic, not minor), key])
        chords += [chord] * (end - start)
        keys += [key] * (end - start)
    return chords, keys


def encode(answer):
    """The scripted decoder's form of an estimate."""
    if answer is None:
        return None
    chords, keys = answer
    out = []
    for i in range(len(chords)):
        if i + 1 == len(chords) or (chords[i], keys[i]) != (chords[i + 1], keys[i + 1]):
            out.append([i + 1, chord_number(*chords[i]), key_number(*keys[i])])
    return out


def place(note):
    # notes are in plain form already: onset = [mc, beat]
    return [norm(note["onset"][0]), norm(note["mc_onset"]), norm(note["onset"][1])]


def annotation_rows(ref, answer):
    """Rows (label, mc, mc_onset, mn_onset) of an annotation file."""
    rows, last = [], (None, None)
    for note, gap, chord, key in zip(ref["notes"], ref["gaps"], *answer):
        if Fraction(gap) == 0:
            continue
        if key != last[1]:
            rows.append([key_text(key)] + place(note))
        if chord != last[0]:
            rows.append([chord_text(chord)] + place(note))
        last = (chord, key)
    return rows


def same_chord(one, two, inversion=True, kind=None):
    """kind: None = full type, "triad" = the triad it stands on, "any" = ignored."""
    if one is None or two is None or one[0] != two[0] or (inversion and one[2] != two[2]):
        return False
    if kind == "any":
        return True
    if kind == "triad":
        return TRIAD_OF[one[1]] == TRIAD_OF[two[1]]
    return one[1] == two[1]


def label_rows(ref, answer):
    """Rows (label, mc, mc_onset, mn_onset, colour) of an evaluated labels file."""
    truth = per_note(ref)
    rows, last = [], (None,) * 4
    for note, gap, chord, key, real, real_key in zip(ref["notes"], ref["gaps"], *answer, *truth):
        if Fraction(gap) == 0:
            continue
        if (key, real_key) != (last[1], last[3]):
            colour = "green" if key == real_key else "yellow" if key[0] == real_key[0] else "red"
            rows.append([key_text(key) if key != last[1] else "--"] + place(note) + [colour])
        if (chord, real) != (last[0], last[2]):
            colour = "green" if same_chord(chord, real) else \
                "yellow" if same_chord(chord, real, False, "triad") else "red"
            rows.append([chord_text(chord) if chord != last[0] else "--"] + place(note) + [colour])
        last = (chord, key, real, real_key)
    return rows


def result_rows(ref, answer, name=pitch_name):
    """Rows (true key, true chord, estimated key, estimated chord, duration)."""
    rows = []
    for gap, chord, key, real, real_key in zip(ref["gaps"], *answer, *per_note(ref)):
        if Fraction(gap) != 0:
            rows.append([key_text(real_key, name), chord_text(real, name), key_text(key, name),
                         chord_text(chord, name), Fraction(gap)])
    return rows


def accuracies(ref, answer):
    """{what the log calls it: duration-weighted share of agreement}."""
    tests = {
        "Chord accuracy": lambda c, k, rc, rk: same_chord(c, rc),
        "Chord accuracy, no inversions": lambda c, k, rc, rk: same_chord(c, rc, False),
        "Chord accuracy, triads": lambda c, k, rc, rk: same_chord(c, rc, True, "triad"),
        "Chord accuracy, triad, no inversions": lambda c, k, rc, rk: same_chord(c, rc, False, "triad"),
        "Chord accuracy, root only": lambda c, k, rc, rk: same_chord(c, rc, False, "any"),
        "Key accuracy": lambda c, k, rc, rk: k == rk,
        "Key accuracy, tonic only": lambda c, k, rc, rk: k[0] == rk[0],
        "Full accuracy": lambda c, k, rc, rk: same_chord(c, rc) and k == rk,
    }
    total = sum(Fraction(g) for g in ref["gaps"])
    out = {}
    for name, agree in tests.items():
        right = sum((Fraction(g) for g, c, k, rc, rk in zip(ref["gaps"], *answer, *per_note(ref))
                     if agree(c, k, rc, rk)), Fraction(0))
        out[name] = right / total
    return out
