"""What a loaded piece must say, worked out from its source alone (reference model).

The result has the form of common.describe_piece (plus "gaps", the time from each note to the
next one), so it can be compared with a piece of the code under test field by field.
"""
from fractions import Fraction

from dst import model, mxl
from dst.common import plain

C, PITCHES = 15, 35  # C on the line of fifths, and its length
TYPES = {
    "M": ("MAJOR", [0, 4, 1]), "m": ("MINOR", [0, -3, 1]), "o": ("DIMINISHED", [0, -3, -6]),
    "+": ("AUGMENTED", [0, 4, 8]), "MM7": ("MAJ_MAJ7", [0, 4, 1, 5]), "Mm7": ("MAJ_MIN7", [0, 4, 1, -2]),
    "mM7": ("MIN_MAJ7", [0, -3, 1, 5]), "mm7": ("MIN_MIN7", [0, -3, 1, -2]),
    "o7": ("DIM7", [0, -3, -6, -9]), "%7": ("HALF_DIM7", [0, -3, -6, -2]),
    "+7": ("AUG_MIN7", [0, 4, 8, -2]), "+M7": ("AUG_MAJ7", [0, 4, 8, 5]),
}
XML_TYPES = {"D7": "Mm7", "M": "M", "M7": "MM7", "d": "o", "a": "+", "d7": "o7", "m": "m", "m7": "mm7",
             "h7": "%7"}
INVERSIONS = {"": 0, "7": 0, "6": 1, "65": 1, "64": 2, "43": 2, "2": 3, "42": 3}
LETTERS = {"C": 0, "G": 1, "D": 2, "A": 3, "E": 4, "B": 5, "F": -1}
DEGREES = ["I", "II", "III", "IV", "V", "VI", "VII"]
SCALES = {"MAJOR": [0, 2, 4, -1, 1, 3, 5], "MINOR": [0, 2, -3, -1, 1, -4, -2]}


def tonic_of(name):
    pitch = C + LETTERS[name[0].upper()]
    return pitch + 7 * (name.count("#") - name[1:].count("b"))


def step_from(tonic, mode, numeral):
    """(tonic, mode) of a key given as a numeral within another key."""
    degree = numeral.lstrip("#b")
    shift = 7 * (numeral.count("#") - numeral[: len(numeral) - len(degree)].count("b"))
    new = tonic + SCALES[mode][DEGREES.index(degree.upper())] + shift
    return new, "MINOR" if degree[-1].islower() else "MAJOR"


def level(beat, timesig):
    top, bottom = (int(x) for x in timesig.split("/"))
    sub = Fraction(1, bottom)
    beats = sub * 3
    if top <= 3 or top % 3:
        beats, sub = sub, sub / 2
    for number, length in ((3, Fraction(top, bottom)), (2, beats), (1, sub)):
        if beat % length == 0:
            return number
    return 0


def _finish(name, notes, chords, keys, key_changes, gap_end, distance):
    """Indexes of notes under chords, and the plain form of everything."""
    out = {"name": name, "notes": [plain(n) for n in notes], "chords": None, "keys": None,
           "chord_changes": None, "chord_ranges": None, "key_changes": None}
    ends = [n["onset"] for n in notes[1:]] + [gap_end]
    out["gaps"] = [plain(distance(n["onset"], end)) for n, end in zip(notes, ends)]
    if chords is None:
        return out
    changes = []
    at = 0
    for chord in chords:
        while at + 1 < len(notes) and notes[at]["onset"] < chord["onset"]:
            at += 1
        changes.append(at)
    ranges = []
    for chord, end in zip(chords, changes[1:] + [len(notes)]):
        start = [i for i, n in enumerate(notes)
                 if n["onset"] >= chord["onset"] or n["offset"] > chord["onset"]]
        ranges.append((start[0] if start else len(notes), end))
    out.update(chords=[plain(c) for c in chords], keys=[plain(k) for k in keys],
               chord_changes=plain(changes), chord_ranges=plain(ranges), key_changes=plain(key_changes))
    return out


def _key(globals_, locals_, applied):
    return {"relative_tonic": applied[0], "local_tonic": locals_[0], "global_tonic": globals_[0],
            "relative_mode": "KeyMode." + applied[1], "local_mode": "KeyMode." + locals_[1],
            "global_mode": "KeyMode." + globals_[1], "tonic_type": "PitchType.TPC"}


def _distinct(keys):
    """Keys which differ from the one before, with their positions."""
    kept = [i for i, k in enumerate(keys) if i == 0 or (k["relative_tonic"], k["relative_mode"]) !=
            (keys[i - 1]["relative_tonic"], keys[i - 1]["relative_mode"])]
    return [keys[i] for i in kept], kept


def from_tables(piece, tabs, name):
    """Reference of a piece given as tables; None if it has no usable notes or no usable label."""
    clean = model.clean(tabs)
    if not clean["notes"]:
        return None
    cols, rows = tabs["measures"]
    measures = {int(r[cols.index("mc")]): dict(zip(cols, r)) for r in rows}
    start, time = {}, Fraction(0)
    order = [m for _, m in sorted(clean["measures"].items())]
    by_mc = {m["mc"]: m for m in order}
    at = order[0]
    while at is not None:
        start[at["mc"]] = time - Fraction(measures[at["mc"]]["mc_offset"])
        time += at["act_dur"]
        at = by_mc.get(at["next"]) if at["next"] is not None else None

    def lev(mc, beat):
        return level(beat, measures[mc]["timesig"])

    def distance(one, two):
        return (start[two[0]] + two[1]) - (start[one[0]] + one[1])

    cols, rows = tabs["notes"]
    notes = []
    for i, n in sorted(clean["notes"].items()):
        raw = dict(zip(cols, rows[i]))
        if not 0 <= int(n["tpc"]) + C < PITCHES:
            continue
        notes.append({
            "pitch_class": int(n["tpc"]) + C, "octave": int(n["midi"]) // 12,
            "onset": (n["mc"], n["mn_onset"]), "onset_level": lev(n["mc"], n["mn_onset"]),
            "duration": n["duration"], "offset": (n["offset_mc"], n["offset_beat"]),
            "offset_level": lev(n["offset_mc"], n["offset_beat"]), "pitch_type": "PitchType.TPC",
            "mc_onset": Fraction(raw["mc_onset"]),
        })
    if "harmonies" not in tabs:
        return _finish(name, notes, None, None, None, max(n["offset"] for n in notes), distance)
    cols, rows = tabs["harmonies"]
    chords, keys = [], []
    last = None
    for i, entry in sorted(clean["chords"].items()):
        raw = dict(zip(cols, rows[i]))
        whole = (tonic_of(raw["globalkey"]), "MINOR" if int(raw["globalkey_is_minor"]) else "MAJOR")
        local = step_from(*whole, raw["localkey"])
        applied = local
        for numeral in reversed(raw["relativeroot"].split("/")) if raw["relativeroot"] else []:
            applied = step_from(*applied, numeral)
        root = local[0] + int(raw["root"])
        kind, tones = TYPES[raw["chord_type"]]
        inversion = INVERSIONS[raw["figbass"]] % len(tones)
        bass = root + tones[inversion]
        if not all(0 <= p < PITCHES for p in (whole[0], local[0], applied[0], root, bass)):
            continue  # cannot be represented
        onset = (entry["mc"], Fraction(entry["mn_onset"]))
        offset = (entry["mc_next"], entry["mn_onset_next"])
        repeated = last == (root, kind, inversion)
        last = (root, kind, inversion)
        if repeated:
            chords[-1]["offset"], chords[-1]["offset_level"] = offset, lev(*offset)
            chords[-1]["duration"] += entry["duration"]
            continue
        chords.append({
            "root": root, "bass": bass, "key_tonic": applied[0], "key_mode": "KeyMode." + applied[1],
            "chord_type": "ChordType." + kind, "inversion": inversion, "onset": onset,
            "onset_level": lev(*onset), "offset": offset, "offset_level": lev(*offset),
            "duration": entry["duration"], "pitch_type": "PitchType.TPC",
            "suspension": raw["changes"] or None,
        })
        keys.append(_key(whole, local, applied))
    if not chords:
        return None
    # keys follow the chords which are left
    keys, key_changes = _distinct(keys)
    return _finish(name, notes, chords, keys, key_changes, chords[-1]["offset"], distance)


def from_xml(piece, name):
    """Reference of a generated MusicXML piece (4/4 throughout, measures counted from 0)."""
    played = mxl.score(piece)[1]
    spans = mxl.bars(piece)
    early = Fraction(spans[0][1] - 4, 4)  # a pick-up belongs to the end of its measure

    def place(quarters):
        quarters = Fraction(quarters)
        mc = [i for i, (begin, _) in enumerate(spans) if begin <= quarters][-1]
        return (mc, (quarters - spans[mc][0]) / 4 - (early if mc == 0 else 0))

    def distance(one, two):
        begin, end = [Fraction(spans[mc][0], 4) + beat + (early if mc == 0 else 0) for mc, beat in (one, two)]
        return end - begin

    notes = []
    for onset, length, octave, fifths in played:
        begin, end = place(onset), place(onset + length)
        notes.append({
            "pitch_class": fifths + C, "octave": octave, "onset": begin,
            "onset_level": level(begin[1], "4/4"), "duration": Fraction(length) / 4, "offset": end,
            "offset_level": level(end[1], "4/4"), "pitch_type": "PitchType.TPC",
            "mc_onset": begin[1] + (early if begin[0] == 0 else 0),
        })
    if "harmonies" in piece.get("absent", []):
        return _finish(name, notes, None, None, None, max(n["offset"] for n in notes), distance)
    chords, keys = [], []
    whole = None
    for on, off, key, degree, kind, inversion in mxl.labels(piece):
        text = key.replace("-", "b").replace("+", "#")
        local = (tonic_of(text), "MAJOR" if text[0].isupper() else "MINOR")
        whole = whole or local
        applied = local
        degree, _, over = degree.partition("/")
        if over:  # applied chords are only generated on the dominant
            applied = (local[0] + 1, local[1])
        degree = degree.replace("-", "b").replace("+", "#")
        if applied[1] == "MINOR" and degree.endswith("7"):
            degree = degree[1:] if degree[0] == "b" else "#" + degree
        digit = int(degree[-1])
        root = applied[0] + SCALES[applied[1]][digit - 1] + 7 * (degree.count("#") - degree.count("b"))
        kind, tones = TYPES[XML_TYPES[kind]]
        inversion %= len(tones)
        onset, offset = place(on), place(off)
        chords.append({
            "root": root, "bass": root + tones[inversion], "key_tonic": applied[0],
            "key_mode": "KeyMode." + applied[1], "chord_type": "ChordType." + kind,
            "inversion": inversion, "onset": onset, "onset_level": level(onset[1], "4/4"),
            "offset": offset, "offset_level": level(offset[1], "4/4"),
            "duration": Fraction(off - on) / 4, "pitch_type": "PitchType.TPC", "suspension": None,
        })
        keys.append(_key(whole, local, applied))
    keys, key_changes = _distinct(keys)
    return _finish(name, notes, chords, keys, key_changes, chords[-1]["offset"], distance)
