"""P08: training data on disk always pair each piece with its own id, or are refused."""
import glob
import os
import pickle
import shutil

from dst import dataref, gen, model, mxl
from dst.boot import REPO
from dst.common import (ASSUME_DISK, ASSUME_PY, STUB_DISK, STUB_H5, STUB_TORCH, describe_piece,
                        first_difference, plain, rand_disk)
from dst.kernel import Invalid
from dst.proc import probe, run_script
from dst.props.p03 import piece_tables, write_corpus

PROPERTY = "P08"
BUDGET = {
    "quick": {"runs": 90, "wall_s": 420},
    "thorough": {"runs": 3000, "wall_s": 3300},
}
RULE = (
    "one run = create_h5_data.py over a corpus of 1-5 generated pieces (tables or MusicXML), into an empty "
    "folder or over the complete output for an older corpus, 1-2 attempts each hit by a seeded crash, torn "
    "write, full disk or write error, then an undisturbed one; after every attempt the folder is consumed the "
    "way test.py and train.py do; non-trivial = a fault fired"
)
REAL = ["create_h5_data.py", "train.py (icm)", "load_pieces", "get_dataset_splits", "to_h5", "h5_to_dataset",
        "pickle", "music21", "pandas"]
STUBS = [STUB_TORCH, STUB_H5, STUB_DISK]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY,
               "a file whose writer died before closing it cannot be opened (h5py stand-in)"]
MUTATING = ["open_w", "write", "mkdir", "rename", "remove", "truncate"]
SPLITS = ["train", "valid", "test"]
PROPORTIONS = [[0.8, 0.1, 0.1], [1, 1, 1], [1, 0, 0], [0, 0.5, 0.5], [0.34, 0.33, 0.33]]


def generate(rng, tier, index):
    use_xml = rng.random() < 0.25

    def corpus(tag):
        pieces = []
        for i in range(rng.randint(1, 3 if use_xml else 5)):
            piece = gen.rand_piece(rng, rng.choice("ab"), f"{tag}{i}", 2)
            if rng.random() < 0.2:
                piece["absent"] = [rng.choice(["harmonies", "notes", "measures"]) if not use_xml
                                   else "harmonies"]
            pieces.append(piece)
        return pieces

    attempts = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        attempts.append({"kind": rng.choice(["crash", "crash", "torn", "enospc", "eio", "eacces"]),
                         "at": rng.randrange(1 << 14), "keep": rng.randrange(1 << 12),
                         "late": rng.randrange(2), "sticky": rng.random() < 0.5})
    return {"xml": use_xml, "old": corpus("o") if rng.random() < 0.6 else [], "new": corpus("n"),
            "attempts": attempts, "props": rng.randrange(len(PROPORTIONS)), "seed": rng.choice([0, 0, 3]),
            "filter": rng.choice([None, None, None, "a"]) if not use_xml else None,
            "disk": rand_disk(rng, short=0.1), "icm": rng.randrange(2),
            "name": rng.choice(dataref.CLASSES)}


def ordered(plan, which):
    if plan["xml"]:
        return sorted(plan[which], key=lambda p: (p["corpus"], "scores", p["name"] + ".mxl"))
    return plan[which]


def write_input(root, plan, which):
    shutil.rmtree(os.path.join(root, "in"), ignore_errors=True)
    if plan["xml"]:
        for piece in plan[which]:
            mxl.write(os.path.join(root, "in"), piece)
    else:
        write_corpus(os.path.join(root, "in"), plan[which])


def valid(plan, which):
    pieces = plan[which]
    if len({p["name"] for p in pieces}) < len(pieces) or not pieces:
        return False
    if plan["xml"]:
        return True
    cleaned = [model.clean(piece_tables(p)) for p in pieces]
    if not all(any(c[k] for c in cleaned) for k in ("notes", "chords", "measures")):
        return False
    return all(c["chords"] or "harmonies" in p.get("absent", []) or not c["notes"]
               for p, c in zip(pieces, cleaned))


def create(plan):
    argv = ["-i", "in", "-o", "out", "-s", str(plan["seed"]), "--splits"]
    argv += [str(p) for p in PROPORTIONS[plan["props"]]]
    if plan["xml"]:
        argv.append("-x")
    if plan["filter"]:
        argv += ["-c", plan["filter"]]
    run_script(os.path.join(REPO, "create_h5_data.py"), argv)


def alone(plan, which):
    """{id: (description, stored form, usable)} of all pieces, each made on its own."""
    from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs
    from harmonic_inference.data.piece import (get_score_piece_from_data_frames,
                                               get_score_piece_from_music_xml)

    out = {}
    if plan["xml"]:
        for i, piece in enumerate(ordered(plan, which)):
            base = os.path.join("in", piece["corpus"])
            csv = os.path.join(base, "chords", piece["name"] + ".csv")
            csv = csv if os.path.exists(csv) else None
            made = get_score_piece_from_music_xml(os.path.join(base, "scores", piece["name"] + ".mxl"), csv)
            out[i] = (describe_piece(made), plain(made.to_dict()) if csv else None, csv is not None, made)
        return out
    files, measures, chords, notes = load_clean_corpus_dfs("in")
    for i in files.index:
        have = [i in t.index.get_level_values(0) for t in (notes, measures)]
        if not all(have):
            continue
        labels = chords.loc[i] if i in chords.index.get_level_values(0) else None
        made = get_score_piece_from_data_frames(notes.loc[i], labels, measures.loc[i])
        wanted = labels is not None and (
            not plan["filter"] or plan["filter"] in files.loc[i, "corpus_name"])
        out[int(i)] = (describe_piece(made), plain(made.to_dict()) if labels is not None else None, wanted,
                       made)
    return out


def names(seed, split):
    return f"out/ChordTransitionDataset_{split}_seed_{seed}.h5", f"out/pieces_{split}_seed_{seed}.pkl"


def stored(plan):
    """What the folder says per split: (ids or error, stored pieces or error)."""
    import h5py

    out = {}
    for split in SPLITS:
        h5_path, pkl_path = names(plan["seed"], split)
        ids = pieces = None
        if os.path.exists(h5_path):
            try:
                with h5py.File(h5_path, "r") as handle:
                    ids = [int(i) for i in handle["file_ids"]]
            except Exception as error:
                ids = f"{type(error).__name__}: {error}"[:200]
        if os.path.exists(pkl_path):
            try:
                with open(pkl_path, "rb") as handle:
                    pieces = [plain(p) for p in pickle.load(handle)]
            except Exception as error:
                pieces = f"{type(error).__name__}: {error}"[:200]
        out[split] = (ids, pieces)
    return out


def consume(plan, split):
    """Load the pieces of a split the way test.py does."""
    import h5py

    from harmonic_inference.utils.data_utils import load_pieces

    h5_path, pkl_path = names(plan["seed"], split)
    ids = None
    if os.path.exists(h5_path):
        with h5py.File(h5_path, "r") as handle:
            ids = list(handle["file_ids"])
    elif not os.path.exists(pkl_path):
        probe("nothing_to_consume")
        return None
    pieces = load_pieces(xml=plan["xml"], input_path="in", piece_dicts_path=pkl_path, file_ids=ids)
    return [describe_piece(p) for p in pieces]


def read_sets(plan, want, parts):
    """Complaint about the stored data sets of one class, or None."""
    from harmonic_inference.data import datasets

    for split, ids in zip(SPLITS, parts):
        path = f"out/{plan['name']}_{split}_seed_{plan['seed']}.h5"
        ref = dataref.reference(plan["name"], [want[i][3] for i in ids], {}) if ids else []
        if not ref:
            if os.path.exists(path):
                return f"{path} exists although no item belongs to it"
            continue
        data = datasets.h5_to_dataset(path, getattr(datasets, plan["name"]))
        if len(data) != len(ref):
            return f"{path} has {len(data)} items instead of {len(ref)}"
        for i, item in enumerate(ref):
            bad = item["targets"] is not None and dataref.difference(dataref.observed(data[i]), item)
            if bad:
                return f"{path}, item {i}: {bad}"
    return None


def train_prior(plan):
    argv = ["-m", "icm", "-i", "in", "-h5", "out", "-s", str(plan["seed"]), "--checkpoint", "ckpt"]
    if plan["xml"]:
        argv.append("-x")
    run_script(os.path.join(REPO, "train.py"), argv)


def prior_matches(want, ids):
    """Does the trained prior follow from the first chords of exactly these pieces?"""
    import json

    from harmonic_inference.data.data_types import KeyMode

    with open(glob.glob("ckpt/icm/*.json")[0]) as handle:
        prior = json.load(handle)
    chords = [want[i][3].get_chords()[0] for i in ids]
    for name, mode in (("major", KeyMode.MAJOR), ("minor", KeyMode.MINOR)):
        mine = [c.get_one_hot_index(relative=True, use_inversion=True, pad=False)
                for c in chords if c.key_mode == mode]
        for index, got in enumerate(prior[name]):
            value = (mine.count(index) + 1 / len(prior[name])) / (len(mine) + 1)
            if abs(value - got) > 1e-9:
                return f"{name} entry {index} is {got} instead of {value} (pieces {ids})"
    return None


def complete(ctx, plan, want, disk, what):
    """After a successful run everything must be there, each piece with its own id."""
    usable = sorted(i for i, entry in want.items() if entry[2])
    state = ctx.spawn(stored, plan, root=disk)
    ctx.check(state.ok, "output-unreadable", lambda: f"{what}: {state} {state.tb}")
    parts = []
    for split in SPLITS:
        ids, pieces = state.value[split]
        if ids is None and pieces is None:
            parts.append([])
            continue
        ctx.check(isinstance(ids, list) and isinstance(pieces, list), "success-but-incomplete",
                  lambda: f"{what}: {split} ids {str(ids)[:200]}, pieces {str(pieces)[:200]}")
        ctx.check(set(ids) <= set(usable), "wrong-ids", lambda: f"{what}: {split} ids {ids}, usable {usable}")
        ctx.check(pieces == [want[i][1] for i in ids], "piece-with-another-id",
                  lambda: f"{what}: {split}: {first_difference(pieces, [want[i][1] for i in ids])}")
        parts.append(ids)
    ctx.check(sorted(sum(parts, [])) == usable, "pieces-lost",
              lambda: f"{what}: parts {parts}, usable pieces {usable}")
    proportions = PROPORTIONS[plan["props"]]
    for part, share in zip(parts, proportions):
        ideal = share / sum(proportions) * len(usable)
        ctx.check(abs(len(part) - ideal) <= 1.0001 and (share or not part), "wrong-proportions",
                  lambda: f"{what}: {[len(p) for p in parts]} pieces for --splits {proportions}")
    seen = ctx.spawn(read_sets, plan, want, parts, root=disk)
    ctx.check(seen.ok and seen.value is None, "wrong-data-set", lambda: f"{what}: {seen} {seen.tb}")
    return parts


def consume_all(ctx, plan, want, disk, what, before):
    """Whatever can be loaded must be the piece its id says."""
    for split in SPLITS:
        out = ctx.spawn(consume, plan, split, root=disk)
        if not out.ok:
            ctx.probe("refused")
            continue
        if out.value is None:
            continue
        paths = [os.path.join(disk, p) for p in names(plan["seed"], split)]
        if before is not None and all(before.get(p) == blob(p) for p in paths):
            ctx.probe("older_output_untouched")
            continue
        for got in out.value:
            ident = int(got["name"].split(":")[0])
            same = ident in want and dict(want[ident][0], name=got["name"]) == got
            ctx.check(same, "piece-with-another-id", lambda: f"{what}, {split}: {got['name']} is not that "
                      f"piece: {first_difference(got, dict(want[ident][0], name=got['name'])) if ident in want else ''}")
            ctx.probe("piece_consumed")


def blob(path):
    if not os.path.isfile(path):
        return None
    with open(path, "rb") as handle:
        return handle.read()


def execute(ctx, plan):
    if not valid(plan, "new") or (plan["old"] and not valid(plan, "old")):
        raise Invalid()
    disk, fresh = ctx.path("disk"), ctx.path("fresh")
    if plan["old"]:
        write_input(disk, plan, "old")
        out = ctx.spawn(create, plan, root=disk)
        if not out.ok:
            raise Invalid("older corpus cannot be stored")
    write_input(disk, plan, "new")
    write_input(fresh, plan, "new")
    ref = ctx.spawn(alone, plan, "new", root=fresh)
    ctx.check(ref.ok, "corpus-cannot-be-read", lambda: f"{ref} {ref.tb}")
    want = ref.value
    out = ctx.spawn(create, plan, root=fresh, fs=plan["disk"])
    ctx.check(out.ok, "creation-failed", lambda: f"{out} {out.tb}")
    parts = complete(ctx, plan, want, fresh, "fresh run")
    ops = out.ops
    for number, attempt in enumerate(plan["attempts"]):
        kind = attempt["kind"]
        kinds = MUTATING if kind in ("crash", "torn") else ["open_w", "write", "mkdir", "rename", "remove"]
        total = sum(ops.get(op, 0) for op in kinds) + 20
        at = attempt["at"] % total
        if attempt["late"]:  # near the end, where the pieces are stored
            at = max(0, total - 20 - attempt["at"] % 24)
        fault = {"kind": kind, "ops": kinds, "at": at, "path": None, "keep": attempt["keep"],
                 "sticky": attempt["sticky"] and kind not in ("crash", "torn")}
        before = {p: blob(p) for p in glob.glob(os.path.join(disk, "out", "*"))}
        out = ctx.spawn(create, plan, root=disk, fs=dict(plan["disk"], faults=[fault]))
        what = f"attempt {number} with {kind} at {at}"
        if out.ok:
            complete(ctx, plan, want, disk, what)
            consume_all(ctx, plan, want, disk, what, None)
        else:
            ctx.check(bool(out.fired.get(kind)), "creation-failed", lambda: f"{what}: {out} {out.tb}")
            consume_all(ctx, plan, want, disk, what, before)
    out = ctx.spawn(create, plan, root=disk, seed=7)
    ctx.check(out.ok, "rerun-failed", lambda: f"{out} {out.tb}")
    again = complete(ctx, plan, want, disk, "re-run")
    ctx.check(again == parts, "rerun-differs", lambda: f"splits {again} instead of {parts}")
    consume_all(ctx, plan, want, disk, "re-run", None)
    if plan["icm"] and parts[0]:
        out = ctx.spawn(train_prior, plan, root=disk)
        ctx.check(out.ok, "training-failed", lambda: f"{out} {out.tb}")
        seen = ctx.spawn(prior_matches, want, parts[0], root=disk)
        ctx.check(seen.ok and seen.value is None, "prior-of-other-pieces", lambda: f"{seen} {seen.tb}")
        ctx.probe("prior_trained")
