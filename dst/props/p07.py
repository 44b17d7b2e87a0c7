"""P07: a split is an exact partition of the usable pieces, ids and contents aligned, fixed by its seed."""
import os

from dst import dataref, gen, model, mxl
from dst.common import (ASSUME_DISK, ASSUME_PY, STUB_DISK, STUB_TORCH, describe_piece,
                        first_difference, rand_disk)
from dst.interrupt import fail_at
from dst.kernel import Invalid
from dst.proc import probe
from dst.props.p03 import piece_tables, write_corpus

PROPERTY = "P07"
BUDGET = {
    "quick": {"runs": 90, "wall_s": 420},
    "thorough": {"runs": 5000, "wall_s": 3300},
}
RULE = (
    "one run = a corpus of 1-7 generated pieces (tables or MusicXML; some lacking a table or labels, some "
    "damaged, some filtered out), split 2-3 times by processes in different random states with seeded "
    "proportions, directory orders, read errors and allocation failures; ids, contents and data sets of every "
    "split are compared with the pieces loaded one by one; non-trivial = a fault fired or a piece is unusable"
)
REAL = ["get_dataset_splits", "get_split_file_ids_and_pieces", "data set classes", "music21", "pandas"]
STUBS = [STUB_TORCH, STUB_DISK]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY]
PROPORTIONS = [[0.7, 0.2, 0.1], [3, 2, 2], [0.8, 0.1, 0.1], [1, 1, 1], [0.5, 0.5], [3, 0, 1], [0, 1],
               [1, 0, 0], [1], [0.6, 0.2, 0.2], [0.05, 0.9, 0.05], [2, 3, 5, 7]]
SINGLE = ["ChordTransitionDataset", "ChordSequenceDataset", "KeyTransitionDataset", "KeySequenceDataset",
          "ChordClassificationDataset"]


def generate(rng, tier, index):
    use_xml = rng.random() < 0.25
    pieces = []
    for i in range(rng.randint(1, 4 if use_xml else 7)):
        piece = gen.rand_piece(rng, rng.choice("ab"), f"p{i}", 2)
        state = rng.random()
        if state < 0.15:
            piece["absent"] = [rng.choice(["harmonies", "notes", "measures"]) if not use_xml else "harmonies"]
        elif state < 0.3:
            piece["damaged"] = rng.randint(1, 3)
        pieces.append(piece)
    splits = []
    for _ in range(rng.choice([2, 2, 3])):
        fault = None
        if rng.random() < 0.35:
            fault = {"kind": rng.choice(["alloc", "alloc", "eio", "eacces"]), "at": rng.randrange(1 << 12)}
        splits.append({"disk": rand_disk(rng), "fault": fault, "state": rng.randrange(1 << 16),
                       "names": sorted({rng.randrange(5) for _ in range(2)})})
    return {"xml": use_xml, "pieces": pieces, "splits": splits,
            "seed": 0 if rng.random() < 0.25 else rng.randrange(1 << 10), "props": rng.randrange(len(PROPORTIONS)),
            "unseeded": rng.random() < 0.15,
            "keep": [rng.randrange(4) for _ in range(7)] if rng.random() < 0.3 else None,
            "many": int(rng.random() < 0.4 and len(pieces) > 5)}


def ordered(plan):
    if plan["xml"]:
        return sorted(plan["pieces"], key=lambda p: (p["corpus"], "scores", p["name"] + ".mxl"))
    return plan["pieces"]


def sources(plan):
    """The arguments for the splitting functions, from this process's disk."""
    if plan["xml"]:
        xmls, csvs = [], []
        for piece in ordered(plan):
            base = os.path.join("in", piece["corpus"])
            csv = os.path.join(base, "chords", piece["name"] + ".csv")
            xmls.append(os.path.join(base, "scores", piece["name"] + ".mxl"))
            csvs.append(csv if os.path.exists(csv) else None)
        return {"xml_and_csv_paths": {"xmls": xmls, "csvs": csvs}}
    from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs

    files, measures, chords, notes = load_clean_corpus_dfs("in")
    for i, piece in enumerate(plan["pieces"]):
        if piece.get("damaged") and i in measures.index.get_level_values(0):
            own = measures.index[measures.index.get_level_values(0) == i]
            if len(own) > 1:  # its notes and chords now lie in measures that do not exist
                measures = measures.drop(own[-1])
    if plan["keep"]:
        files = files.loc[[i for i in files.index if plan["keep"][i % 7]]]
    return {"data_dfs": {"files": files, "measures": measures, "chords": chords, "notes": notes}}


def alone(plan):
    """{id: description} of every usable piece, each made on its own."""
    from harmonic_inference.data.piece import (get_score_piece_from_data_frames,
                                               get_score_piece_from_music_xml)

    source = sources(plan)
    out = {}
    if plan["xml"]:
        paths = source["xml_and_csv_paths"]
        for i, (xml, csv) in enumerate(zip(paths["xmls"], paths["csvs"])):
            if csv is None:
                continue
            try:
                out[i] = describe_piece(get_score_piece_from_music_xml(xml, csv))
            except Exception:
                probe("unusable_piece")
        return out
    dfs = source["data_dfs"]
    for i in dfs["files"].index:
        present = [i in dfs[k].index.get_level_values(0) for k in ("notes", "chords", "measures")]
        if not all(present):
            probe("unusable_piece")
            continue
        try:
            out[int(i)] = describe_piece(get_score_piece_from_data_frames(
                dfs["notes"].loc[i], dfs["chords"].loc[i], dfs["measures"].loc[i]))
        except Exception:
            probe("unusable_piece")
    return out


def run_split(plan, split):
    """One process: ([ids], [descriptions], problem or None, whether an allocation failed)."""
    import builtins

    import numpy as np

    from dst.simfs import Fault
    from harmonic_inference.data import datasets

    np.random.seed(split["state"] % (1 << 16))
    np.random.rand(split["state"] % 7)
    source = sources(plan)
    fault = split["fault"]
    if fault and fault["kind"] != "alloc" and plan["xml"]:
        builtins.open.__self__.faults = [Fault({"kind": fault["kind"], "ops": ["open_r", "read"], "path": "in/",
                                                "at": fault["at"] % 24})]
    names = [SINGLE[i] for i in split["names"]]
    classes = [getattr(datasets, name) for name in names]
    seed = None if plan["unseeded"] else plan["seed"]
    proportions = PROPORTIONS[plan["props"]]

    def call():
        return datasets.get_dataset_splits(classes, splits=proportions, seed=seed, **source)

    hit = False
    if fault and fault["kind"] == "alloc":
        hit, (how, value) = fail_at(call, fault["at"], MemoryError("simulated"))
        if how == "error":
            raise value
        hit = True
    else:
        value = call()
    made, ids, pieces = value
    ids = [[int(i) for i in part] for part in ids]
    described = [[describe_piece(p) for p in part] for part in pieces]
    problem = None
    for name, row in zip(names, made):
        for j, data in enumerate(row):
            want = dataref.reference(name, list(pieces[j]), {}) if len(pieces[j]) else []
            if data is None:
                if want:
                    problem = f"{name} of part {j} is missing although {len(want)} items belong to it"
                continue
            if len(data) != len(want):
                problem = f"{name} of part {j} has {len(data)} items instead of {len(want)}"
                continue
            for i in range(len(want)):
                bad = None
                if want[i]["targets"] is not None:
                    bad = dataref.difference(dataref.observed(data[i]), want[i])
                if bad:
                    problem = f"{name} of part {j}, item {i}: {bad}"
    return ids, described, problem


def seeds_matter(plan):
    """The splits of the same pieces under eight seeds."""
    from harmonic_inference.data import datasets

    out = []
    source = sources(plan)
    for seed in range(8):
        ids, _ = datasets.get_split_file_ids_and_pieces(splits=[1, 1], seed=seed, **source)
        out.append([[int(i) for i in part] for part in ids])
    return out


def damage(root, plan):
    for piece in plan["pieces"]:
        if not plan["xml"] or not piece.get("damaged"):
            continue
        base = os.path.join(root, "in", piece["corpus"])
        score = os.path.join(base, "scores", piece["name"] + ".mxl")
        label = os.path.join(base, "chords", piece["name"] + ".csv")
        if piece["damaged"] == 1:
            with open(score, "rb") as handle:
                data = handle.read()
            with open(score, "wb") as handle:
                handle.write(data[: len(data) // 2])
            os.utime(score, (1_000_000_000, 1_000_000_000))
        elif piece["damaged"] == 2:
            with open(score, "wb"):
                pass
            os.utime(score, (1_000_000_000, 1_000_000_000))
        elif os.path.exists(label):
            with open(label, "w") as handle:
                handle.write("0,2,C\nnonsense\n")


def execute(ctx, plan):
    pieces = plan["pieces"]
    if not pieces or not plan["splits"] or len({p["name"] for p in pieces}) < len(pieces):
        raise Invalid()
    if not plan["xml"]:
        cleaned = [model.clean(piece_tables(p)) for p in pieces]
        if not all(any(c[k] for c in cleaned) for k in ("notes", "chords", "measures")):
            raise Invalid()
        if any("harmonies" not in p.get("absent", []) and not c["chords"] and c["notes"]
               for p, c in zip(pieces, cleaned)):
            raise Invalid()
    for where in ("disk", "ref"):
        root = ctx.path(where)
        if plan["xml"]:
            for piece in pieces:
                mxl.write(os.path.join(root, "in"), piece)
            damage(root, plan)
        else:
            write_corpus(os.path.join(root, "in"), pieces)
    ref = ctx.spawn(alone, plan, root=ctx.path("ref"))
    ctx.check(ref.ok, "corpus-cannot-be-read", lambda: f"{ref} {ref.tb}")
    want = ref.value
    if ref.probes.get("unusable_piece"):
        ctx.nontrivial = True
    for i, piece in enumerate(ordered(plan)):
        if i in want or piece.get("absent") or (plan["keep"] and not plan["xml"] and not plan["keep"][i % 7]):
            continue
        ctx.check(piece.get("damaged"), "usable-piece-refused", lambda: f"piece {i} cannot be made")
    proportions = PROPORTIONS[plan["props"]]
    seeded = None
    for number, split in enumerate(plan["splits"]):
        out = ctx.spawn(run_split, plan, split, root=ctx.path("disk"), fs=split["disk"], seed=split["state"])
        fault = split["fault"]
        disturbed = False
        if fault and fault["kind"] == "alloc" and (not out.ok or len(sum(out.value[0], [])) < len(want)):
            ctx.fault("alloc_failure")
            disturbed = True
        if fault and any(out.fired.get(k) for k in ("eio", "eacces")):
            disturbed = True
        if not out.ok:
            # (a failed allocation may first cost a piece all its labels: the error is then another one)
            ctx.check(disturbed, "split-failed", lambda: f"{out} {out.tb}")
            continue
        ids, described, problem = out.value
        flat = sum(ids, [])
        ctx.event("split", number, ids)
        ctx.check(len(ids) == len(described) == len(proportions), "wrong-number-of-parts",
                  lambda: f"{len(ids)} id lists and {len(described)} piece lists for {proportions}")
        ctx.check(len(set(flat)) == len(flat), "piece-in-two-parts", lambda: f"ids {ids}")
        ctx.check(set(flat) <= set(want), "foreign-piece", lambda: f"ids {ids}, usable: {sorted(want)}")
        lost = set(want) - set(flat)
        ctx.check(len(lost) <= (1 if disturbed else 0), "piece-lost",
                  lambda: f"ids {ids}, usable pieces: {sorted(want)}")
        spared = len(lost)
        for part, contents in zip(ids, described):
            ctx.check(len(part) == len(contents), "ids-and-pieces-differ",
                      lambda: f"{len(part)} ids for {len(contents)} pieces")
            for ident, got in zip(part, contents):
                if fault and fault["kind"] == "alloc" and not spared and got != dict(want[ident],
                                                                                     name=got["name"]):
                    spared, disturbed = 1, True  # a label that cannot be parsed is dropped with a message
                    ctx.fault("alloc_failure")
                    continue
                ctx.check(got == dict(want[ident], name=got["name"]), "contents-of-another-piece",
                          lambda: f"id {ident}: {first_difference(got, dict(want[ident], name=got['name']))}")
        total = sum(proportions)
        for part, prop in zip(ids, proportions):
            ideal = prop / total * len(flat)
            ctx.check(abs(len(part) - ideal) <= 1.0001 and (prop or not part), "wrong-proportions",
                      lambda: f"{[len(p) for p in ids]} pieces for proportions {proportions}")
        ctx.check(problem is None, "data-of-another-split", lambda: problem)
        if not plan["unseeded"] and not disturbed:
            ctx.check(seeded is None or seeded == ids, "seed-does-not-fix-the-split",
                      lambda: f"seed {plan['seed']} gave {seeded} in one process and {ids} in another")
            seeded = ids
    if plan["many"] and len(want) >= 5:
        out = ctx.spawn(seeds_matter, plan, root=ctx.path("disk"))
        ctx.check(out.ok, "split-failed", lambda: f"{out} {out.tb}")
        ctx.probe("compared_seeds")
        ctx.check(any(ids != out.value[0] for ids in out.value[1:]), "seed-ignored",
                  lambda: f"eight seeds give the same split {out.value[0]}")
