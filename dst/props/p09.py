"""P09: every loaded piece carries its own id, name, notes, labels and pre-loaded contents."""
import os
import pickle

from dst import gen, mxl, refpiece
from dst.common import (ASSUME_DISK, ASSUME_PY, STUB_DISK, STUB_TORCH, describe_piece,
                        first_difference, plain, rand_disk)
from dst.kernel import Invalid
from dst.props.p03 import piece_tables, write_corpus
from dst.proc import probe

PROPERTY = "P09"
BUDGET = {
    "quick": {"runs": 150, "wall_s": 420},
    "thorough": {"runs": 5000, "wall_s": 3300},
}
RULE = (
    "one run = a corpus of 1-3 generated pieces (tables, or MusicXML scores with label files; some without "
    "annotations), loaded 1-3 times in one process by id subsets in any order, single ids, stored piece "
    "files (matching, missing, too short, damaged), under arbitrary directory order and seeded read faults; "
    "non-trivial = a fault fired, the listing was permuted, or a label or stored file is missing"
)
REAL = ["load_pieces", "load_clean_corpus_dfs", "get_score_piece_*", "music21", "pandas", "pickle"]
STUBS = [STUB_DISK, STUB_TORCH]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY]


def generate(rng, tier, index):
    use_xml = rng.random() < 0.35
    pieces = []
    for i in range(rng.choice([1, 2, 3, 3, 4])):
        name = f"p{i}" if rng.random() < 0.7 else f"{rng.choice(['p.', 'p. ', 'p0.'])}{i}"
        piece = gen.rand_piece(rng, rng.choice("ab"), name, 3)
        if rng.random() < 0.25:
            piece["absent"] = ["harmonies"]
        pieces.append(piece)
    if use_xml:
        pieces = pieces[:2] if rng.random() < 0.5 else pieces
    loads = []
    for _ in range(rng.choice([1, 1, 2, 3]) if not use_xml else 1):
        ids = None
        if rng.random() < 0.5:
            ids = [rng.randrange(8) for _ in range(rng.randint(1, 3))]
        load = {"ids": ids, "specific": rng.randrange(8) if rng.random() < 0.25 else None,
                "pkl": rng.choice(["none", "none", "good", "good", "good", "missing", "short", "long", "torn"])}
        if rng.random() < 0.25:  # one of several stored pieces, in an order of their own
            load.update(ids=rng.sample(range(6), rng.randint(2, 4)), specific=rng.randrange(6), pkl="good")
        if rng.random() < 0.35:
            load["fault"] = {"kind": rng.choice(["eio", "eacces", "emfile"]),
                             "op": rng.choice(["open_r", "read"]), "at": rng.randrange(1 << 10)}
        loads.append(load)
    return {"xml": use_xml, "pieces": pieces, "loads": loads, "disk": rand_disk(rng),
            "single": use_xml and rng.random() < 0.2,
            "unlist": rng.randrange(8) if not use_xml and rng.random() < 0.25 else None}


def order_of(plan):
    """Piece order as the loader should number them."""
    if plan["xml"]:
        return sorted(plan["pieces"], key=lambda p: (p["corpus"], "scores", p["name"] + ".mxl"))
    return plan["pieces"]


def described(piece):
    return dict(describe_piece(piece), gaps=plain(list(piece.get_duration_cache())))


def run_loads(plan, loads):
    import builtins

    from dst.simfs import Fault
    from harmonic_inference.utils.data_utils import load_pieces

    fs = builtins.open.__self__
    results = []
    for load in loads:
        fs.faults = [Fault(f) for f in load["faults"]]
        before = dict(fs.fired)
        try:
            pieces = load_pieces(
                xml=plan["xml"], input_path=load["input"], piece_dicts_path=load["pkl_path"],
                file_ids=load["file_ids"], specific_id=load["specific_id"],
            )
            value = ("ok", [described(p) for p in pieces])
        except Exception as error:
            value = ("error", f"{type(error).__name__}: {error}"[:300])
        hit = any(fs.fired.get(k, 0) > before.get(k, 0) for k in ("eio", "eacces", "emfile"))
        if hit:
            probe("read_fault_during_load")
        results.append((value, hit))
    return results


def solo(plan, piece):
    """The piece, loaded from a corpus holding nothing else."""
    from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs
    from harmonic_inference.data.piece import (get_score_piece_from_data_frames,
                                               get_score_piece_from_music_xml)

    if plan["xml"]:
        base = os.path.join("solo_" + piece["name"], piece["corpus"])
        csv = os.path.join(base, "chords", piece["name"] + ".csv")
        built = get_score_piece_from_music_xml(
            os.path.join(base, "scores", piece["name"] + ".mxl"), csv if os.path.exists(csv) else None)
    else:
        _, measures, chords, notes = load_clean_corpus_dfs("solo_" + piece["name"])
        built = get_score_piece_from_data_frames(
            notes.loc[0], None if chords is None else chords.loc[0], measures.loc[0])
    return described(built), built.to_dict() if built.get_chords() is not None else None


def solos(plan):
    return [solo(plan, piece) for piece in order_of(plan)]


def from_source(plan, piece):
    """What the generated source itself says about a piece."""
    if plan["xml"]:
        return refpiece.from_xml(piece, piece["name"])
    return refpiece.from_tables(piece, piece_tables(piece), piece["name"])


def against_source(ctx, plan, piece, got):
    want = from_source(plan, piece)
    for what in ("notes", "chords", "keys", "chord_changes", "chord_ranges", "key_changes", "gaps"):
        ctx.check(got[what] == want[what], "not-what-the-source-says",
                  lambda: f"{piece['name']}: {first_difference(got[what], want[what], what)}")


def unlist(path, ident):
    """Take a piece off the list of a corpus; the others keep their ids."""
    with open(path, encoding="utf-8") as handle:
        lines = handle.readlines()
    with open(path, "w", encoding="utf-8") as handle:
        handle.writelines(line for line in lines if not line.startswith(f"{ident}\t"))


def execute(ctx, plan):
    pieces = plan["pieces"]
    if not pieces or not plan["loads"] or len({p["name"] for p in pieces}) < len(pieces):
        raise Invalid()
    ordered = order_of(plan)
    disk, ref = ctx.path("disk"), ctx.path("ref")
    if plan["xml"]:
        for piece in pieces:
            mxl.write(os.path.join(disk, "in"), piece)
            mxl.write(os.path.join(ref, "solo_" + piece["name"]), piece)
    else:
        if any(from_source(plan, p) is None for p in pieces):
            raise Invalid()
        write_corpus(os.path.join(disk, "in"), pieces)
        for piece in pieces:
            write_corpus(os.path.join(ref, "solo_" + piece["name"]), [piece])
    unlisted = None
    if plan["unlist"] is not None and not plan["xml"] and len(pieces) > 1:
        unlisted = plan["unlist"] % len(pieces)
        unlist(os.path.join(disk, "in", "files.tsv"), unlisted)
        ctx.probe("unlisted_piece")
    out = ctx.spawn(solos, plan, root=ref)
    ctx.check(out.ok, "piece-cannot-be-loaded-alone", lambda: f"{out} {out.tb}")
    alone = [described for described, _ in out.value]
    dicts = [as_dict for _, as_dict in out.value]
    for piece, got in zip(ordered, alone):
        against_source(ctx, plan, piece, dict(got, name=piece["name"]))
    if any(p.get("absent") for p in pieces):
        ctx.nontrivial = True
    single = plan["single"] and plan["xml"]
    loads, expected = [], []
    for number, load in enumerate(plan["loads"]):
        universe = [0] if single else [i for i in range(len(ordered)) if i != unlisted]
        ids = None
        if load["ids"] is not None and not single:
            ids = []
            for i in load["ids"]:
                if universe[i % len(universe)] not in ids:
                    ids.append(universe[i % len(universe)])
        used = ids if ids else universe
        source = ordered
        path = "in"
        if single:
            piece = ordered[0]
            path = os.path.join("in", piece["corpus"], "scores", piece["name"] + ".mxl")
            source = [dict(piece, absent=["harmonies"])]
        pkl, pkl_path, outcome = load["pkl"], None, "ok"
        if any(dicts[i] is None for i in used) or single:
            pkl = "none"  # only annotated pieces can be stored
        if pkl != "none":
            pkl_path = f"pieces{number}.pkl"
        if pkl in ("good", "short", "long", "torn"):
            contents = [dicts[i] for i in used]
            if pkl == "long":
                contents = contents + contents[:1] if number % 2 else contents[-1:] + contents
                outcome = "error"
            if pkl == "short":
                contents = contents[:-1]
                outcome = "error"
            data = pickle.dumps(contents)
            if pkl == "torn":
                data = data[: len(data) // 2]
                outcome = "error"
            with open(os.path.join(disk, pkl_path), "wb") as handle:
                handle.write(data)
            if pkl != "good":
                ctx.fault("stored_pieces_" + pkl)
        elif pkl == "missing":
            ctx.fault("stored_pieces_missing")
        specific = None
        want_ids = used
        if load["specific"] is not None:
            specific = used[load["specific"] % len(used)]
            want_ids = [specific]
            if load["specific"] > 6:
                specific = len(ordered) + 1
                outcome = "error"
        faults = []
        if load.get("fault"):
            spec = load["fault"]
            at = spec["at"] % (4 if spec["op"] == "open_r" else 8)
            faults = [{"kind": spec["kind"] if spec["op"] == "open_r" else "eio", "ops": [spec["op"]],
                       "path": None, "at": at}]
        loads.append({"input": path, "pkl_path": pkl_path, "file_ids": ids, "specific_id": specific,
                      "faults": faults})
        expected.append((outcome, want_ids, source))
    out = ctx.spawn(run_loads, plan, loads, root=disk, fs=dict(plan["disk"], faults=[]))
    ctx.check(out.ok, "loader-process-failed", lambda: f"{out} {out.tb}")
    for number, ((value, hit), (outcome, want_ids, source)) in enumerate(zip(out.value, expected)):
        status, result = value
        ctx.event("load", number, status, result)
        if hit:
            ctx.check(status == "error" or outcome == "ok", "read-failure-hidden",
                      lambda: f"load {number} succeeded although it should not")
            if status == "error":
                continue
        if outcome == "error":
            ctx.check(status == "error", "mismatch-accepted",
                      lambda: f"load {number}: {plan['loads'][number]} should be an error but gave "
                              f"{[p['name'] for p in result]}")
            continue
        ctx.check(status == "ok", "load-failed", lambda: f"load {number} {loads[number]}: {result}")
        ctx.check(len(result) == len(want_ids), "wrong-pieces",
                  lambda: f"ids {want_ids} gave {[p['name'] for p in result]}")
        for ident, got in zip(want_ids, result):
            piece = source[ident]
            file = os.path.join(piece["corpus"], "scores", piece["name"] + ".mxl") if plan["xml"] \
                else f"{piece['corpus']}/{piece['name']}.tsv"
            if single:
                file = piece["name"] + ".mxl"
            ctx.check(got["name"] == f"{ident}: {file}", "wrong-name",
                      lambda: f"id {ident} is called {got['name']!r}, expected '{ident}: {file}'")
            if single:
                against_source(ctx, plan, piece, got)
                continue
            want = dict(alone[ident], name=got["name"])
            ctx.check(got == want, "contents-of-another-piece",
                      lambda: f"load {number}, {got['name']}: {first_difference(got, want)}")
