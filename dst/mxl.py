"""Small MusicXML scores (.mxl) and label csvs, from the same kind of piece description."""
import io
import os
import random
import zipfile

STEPS = [("C", 0), ("D", 2), ("E", 4), ("F", 5), ("G", 7), ("A", 9), ("B", 11)]
CONTAINER = (
    '<?xml version="1.0" encoding="UTF-8"?><container><rootfiles>'
    '<rootfile full-path="score.xml"/></rootfiles></container>'
)
DEGREES = ["1", "2", "4", "5", "6", "5/5", "3", "7", "-7", "-2"]
TYPES = ["M", "m", "D7", "M7", "d", "a", "d7", "m7", "h7"]
FIFTHS = {"C": 0, "G": 1, "D": 2, "A": 3, "E": 4, "B": 5, "F": -1}


def bars(piece):
    """[(start, length)] of every measure, in quarter notes."""
    count = max(1, piece["measures"]) + 1
    first = 1 if piece.get("pickup") else 4
    return [(0, first)] + [(first + 4 * i, 4) for i in range(count - 1)]


def score(piece):
    """(xml text, [(onset in quarters, length, octave, fifths)], total quarters)."""
    rng = random.Random(piece["seed"] * 17 + 3)
    body, notes = "", []
    held = None  # the note which is tied into the next measure
    spans = bars(piece)
    for i, (begin, long) in enumerate(spans):
        body += f'<measure number="{i if piece.get("pickup") else i + 1}">'
        if i == 0:
            body += ("<attributes><divisions>2</divisions><key><fifths>0</fifths></key>"
                     "<time><beats>4</beats><beat-type>4</beat-type></time>"
                     "<clef><sign>G</sign><line>2</line></clef></attributes>")
        slots = (1, 2, 4)[piece["density"] % 3] if long == 4 else 1 + piece["density"] % 2
        length = 2 * long // slots
        for slot in range(slots):
            step = STEPS[rng.randrange(7)][0]
            octave = rng.randint(3, 5)
            alter = rng.choice([0, 0, 0, 1, -1])
            tie = ""
            if held:
                step, octave, alter = held
                tie, held = '<tie type="stop"/>', None
            elif piece.get("ties") and slot == slots - 1 and i + 1 < len(spans) and rng.random() < 0.6:
                tie, held = '<tie type="start"/>', (step, octave, alter)
            extra = f"<alter>{alter}</alter>" if alter else ""
            body += (f"<note><pitch><step>{step}</step>{extra}<octave>{octave}</octave></pitch>"
                     f"<duration>{length}</duration>{tie}<voice>1</voice></note>")
            if "stop" in tie:
                notes[-1] = (notes[-1][0], notes[-1][1] + length / 2) + notes[-1][2:]
            else:
                notes.append((begin + slot * length / 2, length / 2, octave, FIFTHS[step] + 7 * alter))
        body += "</measure>"
    text = ('<?xml version="1.0" encoding="UTF-8"?><score-partwise version="3.1"><part-list>'
            '<score-part id="P1"><part-name>Music</part-name></score-part></part-list>'
            f'<part id="P1">{body}</part></score-partwise>')
    return text, notes, sum(spans[-1])


def labels(piece):
    """Rows (on, off, key, degree, type, inv) over the whole score, one per half measure."""
    rng = random.Random(piece["seed"] * 13 + 5)
    total = sum(bars(piece)[-1])
    key = rng.choice(["C", "G", "a", "d", "B-", "f+"])
    rows, last = [], None
    for start in range(0, total, 2):
        choice = (rng.choice(DEGREES), rng.choice(TYPES))
        if choice == last:
            choice = ("3", "m")
        last = choice
        if piece.get("keys") and rng.random() < 0.2:
            key = rng.choice(["C", "e", "D"])
        rows.append((start, min(start + 2, total), key, choice[0], choice[1], rng.choice([0, 0, 1, 2, 3])))
    return rows


def write(root, piece):
    """<root>/<corpus>/scores/<name>.mxl and, unless absent, <root>/<corpus>/chords/<name>.csv."""
    folder = os.path.join(root, piece["corpus"], "scores")
    os.makedirs(folder, exist_ok=True)
    blob = io.BytesIO()
    with zipfile.ZipFile(blob, "w") as archive:
        for name, text in (("META-INF/container.xml", CONTAINER), ("score.xml", score(piece)[0])):
            archive.writestr(zipfile.ZipInfo(name), text)
    with open(os.path.join(folder, piece["name"] + ".mxl"), "wb") as out:
        out.write(blob.getvalue())
    # music21 compares times of its cache and of the score: keep the real clock out of it
    os.utime(os.path.join(folder, piece["name"] + ".mxl"), (1_000_000_000, 1_000_000_000))
    folder = os.path.join(root, piece["corpus"], "chords")
    os.makedirs(folder, exist_ok=True)
    if "harmonies" not in piece.get("absent", []):
        with open(os.path.join(folder, piece["name"] + ".csv"), "w") as out:
            for row in labels(piece):
                out.write(",".join(str(x) for x in row) + "\n")
