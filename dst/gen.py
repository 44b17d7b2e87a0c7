"""Synthetic corpora: small scores with annotations, in the DCML table layout.

A piece is described by a small dict of integers (so that plans stay shrinkable); every table
row is derived from it.  Pieces differ in pitch content and carry their own marker in the
label column, so any row can be attributed to the piece it came from.
"""
import os
import random
from fractions import Fraction

CHORD_TYPES = ["M", "m", "o", "+", "MM7", "Mm7", "mM7", "mm7", "o7", "%7", "+7", "+M7"]
TRIADS = {"M", "m", "o", "+"}
NUMERALS = {0: "I", 1: "V", -1: "IV", 2: "ii", 3: "vi", 4: "iii", 5: "vii", -2: "bVII", -3: "bIII"}
GLOBAL_KEYS = ["C", "G", "F", "D", "Bb", "a", "e", "d", "Eb", "f#"]
LOCAL_KEYS = ["I", "V", "IV", "vi", "ii", "i", "III", "bVI"]
TIMESIGS = [("4/4", Fraction(1)), ("3/4", Fraction(3, 4)), ("2/4", Fraction(1, 2)),
            ("6/8", Fraction(3, 4))]
METRES = [("3/8", Fraction(3, 8)), ("4/8", Fraction(1, 2)), ("9/8", Fraction(9, 8)), ("2/2", Fraction(1)),
          ("3/4", Fraction(3, 4)), ("6/4", Fraction(3, 2)), ("5/8", Fraction(5, 8))]


def rand_piece(rng, corpus, name, max_measures=4, rich=True, applied=False):
    """Draw the description of one piece."""
    return {
        "corpus": corpus,
        "name": name,
        "seed": rng.randrange(1 << 16),
        "measures": rng.randint(1, max_measures),
        "ts": rng.randrange(len(TIMESIGS)),
        "density": rng.randint(1, 4),
        "chords": rng.randint(1, 3),
        "keys": rng.randrange(3),
        "pickup": int(rich and rng.random() < 0.25),
        "repeat": int(rich and rng.random() < 0.25),
        "ties": int(rich and rng.random() < 0.4),
        "grace": int(rich and rng.random() < 0.2),
        "voices": rng.randint(1, 3),
        **({"figures": rng.randint(1, 3) if applied else 1} if rich and rng.random() < 0.4 else {}),
        **({"turn": rng.randrange(len(METRES))} if rich and rng.random() < 0.3 else {}),
    }


def tables(piece):
    """The three tables of a piece: {kind: (columns, rows)} with every cell a string."""
    rng = random.Random(piece["seed"] * 31 + 7)
    timesig, bar = TIMESIGS[piece["ts"] % len(TIMESIGS)]
    n = max(1, piece["measures"])
    beat = Fraction(1, 8) if timesig.endswith("8") else Fraction(1, 4)
    measures, spans, metre = [], [], {}
    for i in range(n):
        mc = i + 1
        if i and i == n // 2 and "turn" in piece:  # the time signature changes
            timesig, bar = METRES[piece["turn"] % len(METRES)]
        metre[mc] = timesig
        dur, offset = bar, Fraction(0)
        if i == 0 and piece["pickup"] and n > 1:
            dur, offset = beat, bar - beat
        nxt = [mc + 1] if i + 1 < n else []
        if piece["repeat"] and n > 2 and i == n - 2:
            nxt = [1, mc + 1]
        skip = piece.get("volta", 0)  # so many measures of first ending
        if skip and n > skip + 2:
            if i == n - skip - 2:
                nxt = [mc + 1, mc + 1 + skip]
            elif i == n - 2:
                nxt = [1]
        if piece.get("fine") and n > 2 and i == n // 2:
            nxt = [mc + 1, -1]  # the piece ends here after the da capo
        if not nxt:
            nxt = [mc + 1] if piece.get("dangling") else [-1]
        if piece.get("unsorted"):
            nxt = nxt[::-1]
        measures.append(
            [mc, mc - 1 if piece["pickup"] and n > 1 else mc, 0, timesig, dur, offset, "", "",
             ", ".join(map(str, nxt))]
        )
        spans.append((mc, measures[-1][1], offset, dur))
    m_cols = ["mc", "mn", "keysig", "timesig", "act_dur", "mc_offset", "volta", "barline", "next"]

    # Notes: one sequence per voice, on a grid, sometimes tied into the next measure
    notes = []
    for mc, mn, offset, dur in spans:
        slots = max(1, min(piece["density"], int(dur / Fraction(1, 16))))
        step = dur / slots
        for slot in range(slots):
            onset = offset + slot * step
            for voice in range(1, piece["voices"] + 1):
                if voice > 1 and rng.random() < 0.3:
                    continue
                tpc = rng.randint(-5, 6)
                midi = 36 + 12 * rng.randint(0, 3) + (tpc * 7) % 12
                notes.append([mc, mn, onset - offset, onset, metre[mc], (voice - 1) % 2 + 1, voice,
                              step, "", "", tpc, midi])
        if piece["grace"] and rng.random() < 0.5:
            tpc = rng.randint(-3, 4)
            notes.append([mc, mn, Fraction(0), offset, metre[mc], 1, 1, Fraction(0), "grace16", "",
                          tpc, 60 + (tpc * 7) % 12])
    if piece["ties"]:
        # Tie the last voice-1 note of a measure into an equal note at the next measure's start
        for (mc, _, off, dur), (mc2, mn2, off2, _) in zip(spans[:-1], spans[1:]):
            ends = [x for x in notes if x[0] == mc and x[6] == 1 and not x[8]
                    and x[3] + x[7] == off + dur]
            starts = [x for x in notes if x[0] == mc2 and x[6] == 1 and not x[8] and x[3] == off2]
            if ends and starts and rng.random() < 0.7:
                a, b = ends[0], starts[0]
                b[10], b[11] = a[10], a[11]
                a[9] = "0" if a[9] == "-1" else "1"
                b[9] = "-1"
    _extras(piece, spans, notes, metre)
    for note in notes:  # the same piece in another place
        note[10] += piece.get("shift", 0)
        note[11] += piece.get("shift", 0) * 7 % 12
    notes.sort(key=lambda x: (x[0], x[3], 0 if x[8] else 1, x[11], x[6]))
    n_cols = ["mc", "mn", "mc_onset", "mn_onset", "timesig", "staff", "voice", "duration",
              "gracenote", "tied", "tpc", "midi"]

    # Chords
    gkey = GLOBAL_KEYS[rng.randrange(len(GLOBAL_KEYS))]
    gminor = int(gkey[0].islower())
    local, lminor = ("i", 1) if gminor else ("I", 0)
    chords = []
    key_changes = piece["keys"]
    figures, drawn = piece.get("figures", 0), random.Random(piece["seed"] * 17 + 3)
    last = None
    for mc, mn, offset, dur in spans:
        if piece.get("sparse") and mc > 1 and (piece["seed"] >> (mc % 12)) & 1:
            continue
        slots = max(1, min(piece["chords"], int(dur / Fraction(1, 8))))
        step = dur / slots
        for slot in range(slots):
            onset = offset + slot * step
            if key_changes and chords and rng.random() < 0.35:
                key_changes -= 1
                local = LOCAL_KEYS[rng.randrange(len(LOCAL_KEYS))]
                lminor = int(local[-1].islower())
            root = rng.choice(sorted(NUMERALS))
            ctype = CHORD_TYPES[rng.randrange(len(CHORD_TYPES))]
            figbass = rng.choice(["", "6", "64"] if ctype in TRIADS else ["7", "65", "43", "2"])
            relroot = rng.choice(["", "", "", "", "V", "ii"])
            numeral = NUMERALS[root]
            if rng.random() < 0.03 and chords:
                numeral = "@none"
            changes = ""
            if figures:  # 1: altered tones, 2: unusual applied keys, 3: both
                if figures != 2 and drawn.random() < 0.4:
                    changes = drawn.choice(["4", "64", "2", "b6", "+9", "v5", "42"])
                if figures != 1 and drawn.random() < 0.3:
                    relroot = drawn.choice(["V/V", "bII", "#vii", "vi/V", "iv", "V/ii", "bVI/V/V"])
            row = (root, ctype, figbass, relroot, local, numeral, changes)
            if row == last:
                continue
            last = row
            label = f"{piece['corpus']}|{piece['name']}|{len(chords)}"
            chords.append([mc, mn, onset - offset, onset, metre[mc], 1, 1, label, gkey, local,
                           numeral, figbass, changes, relroot, ctype, gminor, lminor, root, root])
    c_cols = ["mc", "mn", "mc_onset", "mn_onset", "timesig", "staff", "voice", "label",
              "globalkey", "localkey", "numeral", "figbass", "changes", "relativeroot",
              "chord_type", "globalkey_is_minor", "localkey_is_minor", "root", "bass_note"]
    out = {}
    for kind, cols, rows in (("measures", m_cols, measures), ("notes", n_cols, notes),
                             ("harmonies", c_cols, chords)):
        out[kind] = (cols, [[str(x) for x in row] for row in rows])
    return out


def _extras(piece, spans, notes, metre):
    """Unusual notes, each with a pitch of its own: broken ties, long notes, unison ties."""
    for number, value in enumerate(piece.get("extras", [])):
        kind, value = value % 7, value // 7
        at = value % len(spans)
        mc, mn, off, dur = spans[at]
        half = dur / 2
        midi, tpc = 97 + number, number % 5

        def put(where, onset, length, tied, staff=1, voice=4):
            m, n, o, _ = spans[where]
            notes.append([m, n, onset, o + onset, metre[m], staff, voice, length, "", tied, tpc, midi])

        if kind == 0:
            put(at, half, half, "1")
        elif kind == 1:
            put(at, Fraction(0), half, "-1")
        elif kind == 2:
            put(at, half, half, "0")
            if at + 1 < len(spans):
                put(at + 1, Fraction(0), spans[at + 1][3], "-1")
        elif kind == 3:
            put(at, Fraction(0), dur * (1 + value % 3), "")
        elif kind == 4 and at + 1 < len(spans):
            later = spans[at + 1][3]
            for staff, voice, length in ((1, 4, later), (2, 5, later / 2)):
                put(at, half, half, "1", staff, voice)
                put(at + 1, Fraction(0), length, "-1", staff, voice)
        elif kind == 5 and at + 2 < len(spans):
            put(at, half, half, "1")
            put(at + 1, Fraction(0), spans[at + 1][3], "0")
            put(at + 2, Fraction(0), spans[at + 2][3] / 2, "-1")
        else:
            put(at, half / 2, dur * 2, "")


def tsv(cols, rows):
    return "\n".join("\t".join(r) for r in [cols] + rows) + "\n"


def write_split_corpus(root, pieces):
    """The layout aggregation reads: <root>/<corpus>/{harmonies,notes,measures}/<name>.tsv.

    A piece's "absent" list names tables that do not exist; "damage" maps a table to the kind
    of damage its file has.
    """
    for piece in pieces:
        for kind, (cols, rows) in tables(piece).items():
            folder = os.path.join(root, piece["corpus"], kind)
            os.makedirs(folder, exist_ok=True)
            if kind in piece.get("absent", []):
                continue
            text = tsv(cols, rows)
            damage = piece.get("damage", {}).get(kind)
            data = text.encode()
            if damage == "empty":
                data = b""
            elif damage == "binary":
                data = b"\xff\xfe\x00\x81" * 10
            elif damage == "dir":
                os.makedirs(os.path.join(folder, piece["name"] + ".tsv"), exist_ok=True)
                continue
            with open(os.path.join(folder, piece["name"] + ".tsv"), "wb") as out:
                out.write(data)


def write_corpus_data(root, pieces):
    """An aggregated corpus written by the generator itself (not by the code under test).

    Piece i gets file id i; absent tables simply have no rows for that id.
    """
    os.makedirs(root, exist_ok=True)
    files = [["", "corpus_name", "file_name"]]
    parts = {"measures": [], "notes": [], "harmonies": []}
    head = {}
    for index, piece in enumerate(pieces):
        files.append([str(index), piece["corpus"], piece["name"] + ".tsv"])
        for kind, (cols, rows) in tables(piece).items():
            head[kind] = cols
            if kind in piece.get("absent", []):
                continue
            for j, row in enumerate(rows):
                parts[kind].append([str(index), str(j)] + row)
    names = {"measures": ("measures", "measure_id"), "notes": ("notes", "note_id"),
             "harmonies": ("chords", "chord_id")}
    with open(os.path.join(root, "files.tsv"), "w") as out:
        out.write("\n".join("\t".join(r) for r in files) + "\n")
    for kind, (name, ident) in names.items():
        if not parts[kind]:
            continue
        with open(os.path.join(root, name + ".tsv"), "w") as out:
            out.write(tsv(["file_id", ident] + head[kind], parts[kind]))
