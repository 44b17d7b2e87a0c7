"""P11: evaluation reports, for every piece, its true agreement with its annotations."""
import json
import os
import random
import re
from fractions import Fraction

from dst import annot, gen
from dst.common import (ASSUME_DISK, ASSUME_PY, STUB_DISK, STUB_H5, STUB_TORCH, norm, rand_disk, read_tsv,
                        tree)
from dst.kernel import Invalid
from dst.proc import CRASHED
from dst.props.p10 import MUTATING, order_of, references, write_input

PROPERTY = "P11"
BUDGET = {
    "quick": {"runs": 130, "wall_s": 420},
    "thorough": {"runs": 6000, "wall_s": 3300},
}
RULE = (
    "one run = test.py over a corpus of 1-3 generated pieces (tables or MusicXML; some unannotated, some whose "
    "names contain each other), all of them or the "
    "ids stored with a data set, with forced labels per piece or for all, decoder answers that agree with the "
    "annotations to a seeded degree, once undisturbed and once hit by a crash, torn write, full disk or "
    "write error, or by a decoder that fails at one piece; non-trivial = a fault fired or forced labels were given"
)
REAL = ["test.py", "load_forces_from_json", "evaluate_*", "get_results_df", "get_label_df", "load_pieces",
        "load_models_from_argparse", "from_args", "logging to a file", "pandas", "music21"]
STUBS = [STUB_DISK, STUB_TORCH, STUB_H5, "decoder: scripted answers, looked up by notes and forced labels"]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY, "a piece without forced labels of its own is not named inside the key of another"]
NAMES = ["p", "k.331", "No. 1 in c", "Op. 2: Allegro", "q", "p1", "p10", "p", "p1", "p"]
HEAD = r"^[A-Z]+:[\w.]+:"
LINE = re.compile(HEAD + r"([A-Z][a-z]+ accuracy[a-z, ]*) = (\S+)$")


def rand_forces(rng):
    out = {}
    for name in annot.FORCE_SETS:
        if rng.random() < 0.4:
            out[name] = [rng.randrange(6) for _ in range(rng.randint(1, 3))]
    for name in annot.FORCE_MAPS:
        if rng.random() < 0.4:
            start = rng.randrange(4)
            out[name] = [[start, start + rng.randint(1, 3), rng.randrange(50)]]
    return out


def generate(rng, tier, index):
    use_xml = rng.random() < 0.2
    pieces, used = [], set()
    for _ in range(rng.choice([1, 2, 2, 3]) if not use_xml else rng.choice([1, 2])):
        piece = gen.rand_piece(rng, rng.choice("aab"), rng.choice(NAMES), 4)
        if (piece["corpus"], piece["name"]) in used:
            piece["name"] += f"-{len(used)}"
        used.add((piece["corpus"], piece["name"]))
        if rng.random() < 0.12:
            piece["absent"] = ["harmonies"]
        pieces.append(piece)
    forces = None
    if rng.random() < 0.5:
        forces = {"default": rand_forces(rng) if rng.random() < 0.6 else None,
                  "flat": rng.random() < 0.2, "short": rng.random() < 0.5,
                  "named": [rand_forces(rng) if rng.random() < 0.6 else None for _ in pieces]}
    fault = None
    if rng.random() < 0.5:
        fault = {"kind": rng.choice(["crash", "torn", "enospc", "eio", "eacces", "decoder"]),
                 "at": rng.randrange(1 << 12), "keep": rng.randrange(1 << 12),
                 "sticky": rng.random() < 0.2}
    return {"xml": use_xml, "pieces": pieces, "answers": rng.randrange(1 << 16), "forces": forces,
            "fault": fault, "verbose": rng.random() < 0.25, "disk": rand_disk(rng, short=0.1),
            "ids": [rng.randrange(8) for _ in range(2)] if rng.random() < 0.3 else None,
            "one": rng.randrange(8) if rng.random() < 0.15 else None, "test": rng.randrange(2)}


def file_ids(path, ids):
    import h5py

    os.makedirs(os.path.dirname(path), exist_ok=True)
    with h5py.File(path, "w") as handle:
        handle.create_dataset("file_ids", data=ids)


def written(force):
    """A forces entry as the json file has it."""
    out = {}
    for name, value in (force or {}).items():
        out[name] = {f"({a}, {b})": c for a, b, c in value} if name in annot.FORCE_MAPS else value
    return out


def passed(force):
    """A forces entry as the decoder must get it."""
    return {name: {(a, b): c for a, b, c in value} if name in annot.FORCE_MAPS else set(value)
            for name, value in (force or {}).items()}


def close(one, two):
    return abs(float(one) - float(two)) < 1e-9


def number(text):
    return Fraction(text) if "/" in text else Fraction(text.strip())


def check_table(path, want, columns):
    try:
        have, rows = read_tsv(path)
        where = [have.index(c) for c in columns]
        got = [[row[i] for i in where] for row in rows]
    except Exception as error:
        return f"cannot be read as a table ({type(error).__name__}: {error})"
    if len(got) != len(want):
        return f"{len(got)} rows instead of {len(want)}"
    for i, (one, two) in enumerate(zip(got, want)):
        for cell, right, name in zip(one, two, columns):
            same = close(number(cell), right) if isinstance(right, Fraction) else norm(cell) == norm(right)
            if not same:
                return f"row {i}: {name} is {cell}, expected {right}"
    return None


TABLES = {
    "_results.tsv": (lambda r, a: annot.result_rows(r, a), ("gt_key", "gt_chord", "est_key", "est_chord",
                                                            "duration")),
    "_results_midi.tsv": (lambda r, a: annot.result_rows(r, a, annot.midi_name),
                          ("gt_key", "gt_chord", "est_key", "est_chord", "duration")),
    ".tsv": (annot.label_rows, ("label", "mc", "mc_onset", "mn_onset", "color_name")),
}


def sections(text):
    """[(piece name, {measure: value})] of a log, in order."""
    out = []
    for line in text.split("\n"):
        start = re.match(HEAD + "Running piece (.*)$", line)
        if start:
            out.append((start.group(1), {}))
        match = LINE.match(line)
        if match and out:
            out[-1][1][match.group(1)] = match.group(2)
    return out


def execute(ctx, plan):
    pieces = order_of(plan)
    if not pieces or len({(p["corpus"], p["name"]) for p in pieces}) < len(pieces):
        raise Invalid()
    refs = references(plan)
    if any(None in (annot.per_note(ref) or [[]])[0] for ref in refs):
        raise Invalid()  # notes before the first label
    files = [os.path.join(p["corpus"], *(["scores"] if plan["xml"] else []), p["name"]) for p in pieces]
    names = [f"{i}: {f}{'.mxl' if plan['xml'] else '.tsv'}" for i, f in enumerate(files)]
    disk = ctx.path("disk")
    write_input(disk, plan)

    # forced labels
    forced = [{} for _ in pieces]
    argv = ["-i", "in", "-o", "out", "--checkpoint", "ckpt", "-l", "run.log"]
    if plan["forces"]:
        spec, data = plan["forces"], {}
        if spec["default"]:
            data["default"] = written(spec["default"])
            forced = [passed(spec["default"])] * len(pieces)
        flat = spec["flat"] and any(data.get("default", {}).values())
        if flat:
            data = data["default"]
        else:
            given = [force is not None for force in (spec["named"] + [None] * 3)[: len(pieces)]]
            labels = files if spec["short"] else [f"{i}: {f}." for i, f in enumerate(files)]
            for i, name in enumerate(names):  # a piece's own key has to be the longest which matches
                if any(given[j] and labels[j] in name and not (given[i] and len(labels[j]) < len(labels[i]))
                       for j in range(len(names)) if j != i):
                    labels = [f"{i}: {f}." for i, f in enumerate(files)]
                    break
            else:
                if any(given[i] and given[j] and labels[j] in name for i, name in enumerate(names)
                       for j in range(len(names)) if i != j):
                    ctx.probe("key_inside_another_name")
            for i, force in enumerate((spec["named"] + [None] * 3)[: len(pieces)]):
                label = labels[i]
                if force is not None:
                    data[label] = written(force)
                    forced[i] = passed(force)
        with open(os.path.join(disk, "forces.json"), "w") as out:
            json.dump(data, out)
        argv += ["--forces-json", "forces.json"]
        ctx.nontrivial = True
        ctx.probe("forces_" + ("flat" if flat else "named" if len(data) - ("default" in data) else "default"))
    chosen = list(range(len(pieces)))
    if plan["ids"] is not None:
        chosen = []
        for i in plan["ids"]:
            if i % len(pieces) not in chosen:
                chosen.append(i % len(pieces))
        kind = "test" if plan["test"] else "valid"
        if plan["test"]:
            argv.append("--test")
        out = ctx.spawn(file_ids, f"h5/ChordTransitionDataset_{kind}_seed_4.h5", chosen, root=disk)
        ctx.check(out.ok, "harness", lambda: f"{out} {out.tb}")
        argv += ["-h5", "h5", "-s", "4"]
    else:
        argv.append("--no_h5")
    if plan["one"] is not None:
        chosen = [chosen[plan["one"] % len(chosen)]]
        argv += ["--id", str(chosen[0])]
    if plan["xml"]:
        argv.append("-x")
    if plan["verbose"]:
        argv.append("-v")

    table, estimates = {}, {}
    for i in chosen:
        asked = annot.question(refs[i]["notes"], forced[i])
        if asked not in table:
            answer = annot.estimate(random.Random(f"{plan['answers']}/{asked}"), refs[i])
            table[asked] = (answer, annot.encode(answer))
        estimates[i] = table[asked][0]
    answers = {asked: code for asked, (_, code) in table.items()}

    def check(stage, complete, failed=None):
        out_dir = os.path.join(disk, "out")
        present = tree(out_dir) if os.path.isdir(out_dir) else {}
        known = {}
        for i in chosen:
            if estimates[i] is None or i == failed:
                continue
            if refs[i]["chords"] is None:
                # nothing to compare with: the labels alone, whatever their colour
                known[files[i] + ".tsv"] = (annot.annotation_rows(refs[i], estimates[i]),
                                            TABLES[".tsv"][1][:4])
                ctx.probe("piece_without_annotations")
                continue
            for ending, (rows, columns) in TABLES.items():
                known[files[i] + ending] = (rows(refs[i], estimates[i]), columns)
        for name in sorted(present):
            if name.endswith(".tsv"):
                ctx.check(name in known, "results-for-nothing", lambda: f"{stage}: unexpected file {name}")
                problem = check_table(os.path.join(out_dir, name), *known[name])
                ctx.check(problem is None, "wrong-table", lambda: f"{stage}: {name}: {problem}")
        for name in known if complete else ():
            ctx.check(name in present, "no-results", lambda: f"{stage}: {name} is missing")
        text = present.get("run.log", b"").decode("utf-8", "replace")
        if not complete and plan["fault"]["kind"] not in ("crash", "torn", "decoder"):
            return  # writing the log itself may have failed
        text = text[: text.rfind("\n") + 1]
        seen = sections(text)
        if complete:
            ctx.check([n for n, _ in seen] == [names[i] for i in chosen], "wrong-pieces",
                      lambda: f"{stage}: evaluated {[n for n, _ in seen]}, expected "
                              f"{[names[i] for i in chosen]}")
        for name, values in seen:
            i = names.index(name)
            if estimates[i] is None or refs[i]["chords"] is None or i == failed:
                ctx.check(not values, "accuracy-of-nothing", lambda: f"{stage}: {name} {values}")
                continue
            want = annot.accuracies(refs[i], estimates[i])
            for what, value in values.items():
                ctx.check(what in want and close(value, want[what]), "wrong-accuracy",
                          lambda: f"{stage}: {name}: {what} = {value}, expected {float(want[what])}")
            if complete:
                ctx.check(set(values) == set(want), "accuracy-missing",
                          lambda: f"{stage}: {name}: {sorted(set(want) - set(values))}")
            if 0 < want["Full accuracy"] < 1:
                ctx.probe("partly_right")

    out = ctx.spawn(annot.run, "test.py", argv, answers, root=disk, fs=dict(plan["disk"], faults=[]))
    ctx.check(out.ok, "evaluation-failed", lambda: f"{out} {out.tb}")
    check("undisturbed run", True)
    if plan["fault"]:
        import shutil

        shutil.rmtree(os.path.join(disk, "out"), ignore_errors=True)
        if plan["fault"]["kind"] == "decoder":
            victim = plan["fault"]["at"] % len(chosen)
            ctx.spawn(annot.run, "test.py", argv, answers, victim, root=disk, fs=dict(plan["disk"], faults=[]))
            ctx.fault("decoder_failure")
            ctx.nontrivial = True
            check("run with a decoder failure", False, chosen[victim])
            return
        hits = len([line for line in out.log if line.split(" ")[0] in MUTATING])
        fault = dict(plan["fault"], ops=MUTATING, path=None, at=plan["fault"]["at"] % max(1, hits))
        again = ctx.spawn(annot.run, "test.py", argv, answers, root=disk,
                          fs=dict(plan["disk"], faults=[fault]))
        if again.fired.get(fault["kind"]):
            ctx.nontrivial = True
        if again.how == CRASHED:
            ctx.probe("crash_during_evaluation")
        check(f"run with {fault['kind']}", False)
