"""Reference models: what cleaning should make of a generated piece, in plain Python."""
from fractions import Fraction


def _next(cell):
    return [int(x) for x in cell.split(", ")] if cell else []


def merge_ties(notes):
    """Merge tied notes in place; notes: {row number: record}."""
    tied_in = {i for i, n in notes.items() if n["tied"] in ("0", "-1") and not n["grace"]}
    tied_out = [i for i, n in sorted(notes.items()) if n["tied"] == "1" and not n["grace"]]

    def followers(note):
        return [j for j in sorted(tied_in) if notes[j]["midi"] == note["midi"]
                and (notes[j]["mc"], notes[j]["mn_onset"]) == (note["offset_mc"], note["offset_beat"])]

    def extend(i):
        note = notes[i]
        while True:
            options = followers(note)
            if len(options) > 1:
                same = [j for j in options if (notes[j]["staff"], notes[j]["voice"])
                        == (note["staff"], note["voice"])]
                options = same or options
            if not options:
                return
            j = options[0]
            tied_in.discard(j)
            other = notes.pop(j)
            note["duration"] += other["duration"]
            note["offset_mc"], note["offset_beat"] = other["offset_mc"], other["offset_beat"]
            if "0" in (note["tied"], other["tied"]):
                note["tied"] = str(int(note["tied"]) + int(other["tied"]))
            else:
                note["tied"] = ""
                return

    for i in tied_out:
        extend(i)
    while True:  # chains which lack their beginning
        heads = [i for i in sorted(tied_in) if notes[i]["tied"] == "0"
                 and [j for j in followers(notes[i]) if j != i]]
        reached = {j for i in heads for j in followers(notes[i])}
        heads = [i for i in heads if i not in reached]
        if not heads:
            return
        for i in heads:
            tied_in.discard(i)
            extend(i)


def clean(tabs):
    """tabs: gen.tables() output minus absent tables.  Returns {kind: {row number: {col: text}}}.

    Kinds are measures, notes, chords.  Values are compared as text through common.norm.
    """
    out = {"measures": {}, "notes": {}, "chords": {}}
    if "measures" not in tabs:
        return out
    cols, rows = tabs["measures"]
    measures = []
    for i, row in enumerate(rows):
        rec = dict(zip(cols, row))
        options = _next(rec["next"])
        last = i == len(rows) - 1 or not options or -1 in options
        measures.append({
            "id": i, "mc": int(rec["mc"]), "next": None if last else max(options),
            "dur": Fraction(rec["act_dur"]), "off": Fraction(rec["mc_offset"]),
        })
    while True:  # only measures reached from another one survive, and the first
        targets = {m["next"] for m in measures}
        kept = [m for i, m in enumerate(measures) if m["id"] == 0 or m["mc"] in targets]
        if len(kept) == len(measures):
            break
        measures = kept
    by_mc = {m["mc"]: m for m in measures}
    for m in measures:
        out["measures"][m["id"]] = {"mc": m["mc"], "next": m["next"], "act_dur": m["dur"]}

    def valid(rec):
        m = by_mc.get(int(rec["mc"]))
        return m is not None and m["off"] <= Fraction(rec["mn_onset"]) < m["off"] + m["dur"]

    if "notes" in tabs:
        cols, rows = tabs["notes"]
        notes = {}
        for i, row in enumerate(rows):
            rec = dict(zip(cols, row))
            if not valid(rec):
                continue
            m = by_mc[int(rec["mc"])]
            beat, dur = Fraction(rec["mn_onset"]), Fraction(rec["duration"])
            end = beat + dur
            while m["next"] is not None and end >= m["off"] + m["dur"]:
                after = by_mc[m["next"]]
                end = end - m["dur"] - m["off"] + after["off"]
                m = after
            notes[i] = {"mc": int(rec["mc"]), "mn_onset": beat, "duration": dur,
                        "offset_mc": m["mc"], "offset_beat": end, "midi": rec["midi"],
                        "tpc": rec["tpc"], "tied": rec["tied"], "grace": bool(rec["gracenote"]),
                        "staff": rec["staff"], "voice": rec["voice"]}
        merge_ties(notes)
        out["notes"] = {i: {k: v for k, v in n.items() if k not in ("grace", "staff", "voice")} for i, n in notes.items()}

    if "harmonies" in tabs:
        cols, rows = tabs["harmonies"]
        chords = []
        for i, row in enumerate(rows):
            rec = dict(zip(cols, row))
            if valid(rec) and rec["numeral"] not in ("@none", ""):
                chords.append((i, rec))
        start, time = {}, Fraction(0)
        m = measures[0]
        while m is not None:  # the playing order of what is left
            start[m["mc"]] = time
            time += m["dur"]
            last = m
            m = by_mc.get(m["next"]) if m["next"] is not None else None
        for pos, (i, rec) in enumerate(chords):
            m = by_mc[int(rec["mc"])]
            begin = start[m["mc"]] + Fraction(rec["mn_onset"]) - m["off"]
            if pos + 1 < len(chords):
                nxt = chords[pos + 1][1]
                m2 = by_mc[int(nxt["mc"])]
                end = start[m2["mc"]] + Fraction(nxt["mn_onset"]) - m2["off"]
                place = (m2["mc"], Fraction(nxt["mn_onset"]))
            else:
                end, place = time, (last["mc"], last["off"] + last["dur"])
            if end <= begin:
                continue
            out["chords"][i] = {"mc": m["mc"], "mn_onset": rec["mn_onset"], "label": rec["label"],
                                "duration": end - begin, "mc_next": place[0],
                                "mn_onset_next": place[1]}
    return out
