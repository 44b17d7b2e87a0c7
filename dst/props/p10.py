"""P10: annotating a batch gives every piece its own complete label file, or none."""
import os
import random
import shutil

from dst import annot, gen, mxl, refpiece
from dst.common import (ASSUME_DISK, ASSUME_PY, STUB_DISK, STUB_TORCH, norm, rand_disk, read_tsv,
                        tree)
from dst.kernel import Invalid
from dst.proc import CRASHED
from dst.props.p03 import piece_tables, write_corpus

PROPERTY = "P10"
BUDGET = {
    "quick": {"runs": 110, "wall_s": 420},
    "thorough": {"runs": 6000, "wall_s": 3300},
}
RULE = (
    "one run = annotate.py over a corpus of 1-4 generated pieces (tables or MusicXML; equal names in different "
    "folders, names with dots, blanks and colons, some annotated, some with no answer), into an empty folder "
    "or over an earlier output, hit by seeded crashes, torn writes, full disk and write errors at any write or a decoder that fails at one piece, "
    "then once undisturbed; non-trivial = a fault fired or the output folder was used before"
)
REAL = ["annotate.py", "load_models_from_argparse", "from_args", "load_pieces", "get_annotation_df", "write_tsv",
        "logging to a file", "pandas", "music21"]
STUBS = [STUB_DISK, STUB_TORCH, "decoder: scripted answers, looked up by the notes it is asked about"]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY]
MUTATING = ["open_w", "write", "mkdir", "rename", "remove", "truncate"]
NAMES = ["p", "k.331", "No. 1 in c", "Op. 2: Allegro", "op.9_no.2", "p.tsv", "x-1"]


def generate(rng, tier, index):
    use_xml = rng.random() < 0.2
    pieces, used = [], set()
    for _ in range(rng.choice([1, 2, 2, 3, 4]) if not use_xml else rng.choice([1, 2])):
        piece = gen.rand_piece(rng, rng.choice(["a", "b", "c d"]), rng.choice(NAMES), 3)
        if (piece["corpus"], piece["name"]) in used:
            piece["name"] += f"-{len(used)}"
        used.add((piece["corpus"], piece["name"]))
        if rng.random() < 0.5:
            piece["absent"] = ["harmonies"]
        pieces.append(piece)
    attempts = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        attempts.append({"kind": rng.choice(["crash", "crash", "torn", "enospc", "eio", "eacces", "decoder", "decoder"]),
                         "at": rng.randrange(1 << 12), "keep": rng.randrange(1 << 12),
                         "sticky": rng.random() < 0.3,
                         "target": rng.randrange(8) if rng.random() < 0.5 else None})
    return {"xml": use_xml, "pieces": pieces, "answers": rng.randrange(1 << 16), "attempts": attempts,
            "before": rng.random() < 0.3, "log": rng.random() < 0.7, "verbose": rng.random() < 0.25,
            "id": rng.randrange(8) if rng.random() < 0.2 else None, "disk": rand_disk(rng, short=0.15)}


def order_of(plan):
    if plan["xml"]:
        return sorted(plan["pieces"], key=lambda p: (p["corpus"], "scores", p["name"] + ".mxl"))
    return plan["pieces"]


def references(plan):
    refs = []
    for piece in order_of(plan):
        ref = refpiece.from_xml(piece, piece["name"]) if plan["xml"] else \
            refpiece.from_tables(piece, piece_tables(piece), piece["name"])
        if ref is None:
            raise Invalid()
        refs.append(ref)
    return refs


def write_input(disk, plan):
    if plan["xml"]:
        for piece in plan["pieces"]:
            mxl.write(os.path.join(disk, "in"), piece)
    else:
        write_corpus(os.path.join(disk, "in"), plan["pieces"])
    annot.write_checkpoints(disk)


def file_of(plan, piece):
    """Where a piece's labels belong, relative to the output folder."""
    folder = [piece["corpus"], "scores"] if plan["xml"] else [piece["corpus"]]
    return os.path.join(*folder, piece["name"] + ".tsv")


def answers_for(plan, refs, seed):
    """Per piece an estimate; the answer to a question depends on the notes alone."""
    out, table = [], {}
    for ref in refs:
        asked = annot.question(ref["notes"], {})
        if asked not in table:
            table[asked] = annot.estimate(random.Random(f"{seed}/{asked}"), ref)
        out.append(table[asked])
    return out, {asked: annot.encode(answer) for asked, answer in table.items()}


def rows_of(path):
    columns, rows = read_tsv(path)
    wanted = [columns.index(c) for c in ("label", "mc", "mc_onset", "mn_onset")]
    return [[row[i] if n == 0 else norm(row[i]) for n, i in enumerate(wanted)] for row in rows]


def judge(path, allowed):
    """Is the file one of the allowed complete label lists?"""
    try:
        got = rows_of(path)
    except Exception as error:
        return f"cannot be read as a label table ({type(error).__name__}: {error})"
    if got in allowed:
        return None
    want = allowed[-1]
    for i, (one, two) in enumerate(zip(got, want)):
        if one != two:
            return f"row {i} is {one}, expected {two}"
    return f"{len(got)} rows instead of {len(want)}"


def execute(ctx, plan):
    pieces = order_of(plan)
    if not pieces or len({(p["corpus"], p["name"]) for p in pieces}) < len(pieces):
        raise Invalid()
    refs = references(plan)
    disk = ctx.path("disk")
    write_input(disk, plan)
    argv = ["-i", "in", "-o", "out", "--checkpoint", "ckpt"]
    if plan["xml"]:
        argv.append("-x")
    if plan["log"]:
        argv += ["-l", "run.log"]
    if plan["verbose"]:
        argv.append("-v")
    chosen = list(range(len(pieces)))
    if plan["id"] is not None:
        chosen = [plan["id"] % len(pieces)]
        argv += ["--id", str(chosen[0])]

    old = {}
    if plan["before"]:
        estimates, table = answers_for(plan, refs, -1)
        out = ctx.spawn(annot.run, "annotate.py", argv, table, root=disk)
        ctx.check(out.ok, "annotation-failed", lambda: f"{out} {out.tb}")
        for i in chosen:
            if estimates[i] is not None:
                old[file_of(plan, pieces[i])] = annot.annotation_rows(refs[i], estimates[i])
        ctx.nontrivial = True
    estimates, table = answers_for(plan, refs, plan["answers"])
    new = {file_of(plan, pieces[i]): annot.annotation_rows(refs[i], estimates[i])
           for i in chosen if estimates[i] is not None}
    if len(new) < len(chosen):
        ctx.probe("piece_without_answer")

    def check_files(stage, complete, failed=None):
        found = {name for name in tree(os.path.join(disk, "out")) if name.endswith(".tsv")} \
            if os.path.isdir(os.path.join(disk, "out")) else set()
        for name in sorted(found):
            allowed = [rows for rows in (old.get(name), None if name == failed else new.get(name))
                       if rows is not None]
            if complete and name in new:
                allowed = [new[name]]
            ctx.check(allowed, "labels-for-nothing", lambda: f"{stage}: unexpected file {name}")
            problem = judge(os.path.join(disk, "out", name), allowed)
            ctx.check(problem is None, "wrong-labels", lambda: f"{stage}: {name}: {problem}")
        return found

    def log_text():
        path = os.path.join(disk, "out", "run.log")
        if not plan["log"] or not os.path.exists(path):
            return None
        with open(path, encoding="utf-8") as handle:
            return handle.read()

    if plan["attempts"]:
        count = ctx.path("count")
        shutil.copytree(disk, count)
        out = ctx.spawn(annot.run, "annotate.py", argv, table, root=count)
        ctx.check(out.ok, "annotation-failed", lambda: f"{out} {out.tb}")
        log = [line for line in out.log if line.split(" ")[0] in MUTATING]
    for number, attempt in enumerate(plan["attempts"]):
        done = number > 0  # files of this run's answers may be there already
        if attempt["kind"] == "decoder":
            victim = attempt["at"] % len(chosen)
            out = ctx.spawn(annot.run, "annotate.py", argv, table, victim, root=disk,
                            fs=dict(plan["disk"], faults=[]))
            ctx.fault("decoder_failure")
            ctx.nontrivial = True
            name = file_of(plan, pieces[chosen[victim]])
            check_files(f"attempt {number} (decoder failure)", False, name if not done else None)
            continue
        names = sorted(new)
        target = None
        if attempt["target"] is not None and names:
            target = "out/" + names[attempt["target"] % len(names)]
        hits = len([line for line in log if target is None or target in line])
        fault = {"kind": attempt["kind"], "ops": MUTATING, "path": target, "at": attempt["at"] % max(1, hits),
                 "keep": attempt["keep"], "sticky": attempt["sticky"]}
        if log_text() is not None:  # what an earlier run reported does not count for this one
            os.remove(os.path.join(disk, "out", "run.log"))
        out = ctx.spawn(annot.run, "annotate.py", argv, table, root=disk,
                        fs=dict(plan["disk"], faults=[fault]))
        stage = f"attempt {number} ({attempt['kind']})"
        found = check_files(stage, False)
        if not out.fired.get(attempt["kind"]):
            continue
        ctx.nontrivial = True
        if out.how == CRASHED:
            ctx.probe("crash_during_batch")
        text = log_text()
        if text is not None:  # whatever was reported as written is there
            for name, rows in new.items():
                if f"written out to {os.path.join('out', name)}\n" in text:
                    ctx.check(name in found, "reported-but-missing", lambda: f"{stage}: {name}")
                    problem = judge(os.path.join(disk, "out", name), [rows])
                    ctx.check(problem is None, "wrong-labels", lambda: f"{stage}: {name}: {problem}")
        if attempt["kind"] in ("crash", "torn"):
            continue
        # a write error on one piece's own file must not stop or hide the other pieces
        if target is not None:
            ctx.check(out.ok, "one-failure-stops-the-batch", lambda: f"{stage} on {target}: {out} {out.tb}")
            for name, rows in new.items():
                if os.path.join("out", name) != target and not name.startswith(target[4:]):
                    ctx.check(name in found, "one-failure-loses-others",
                              lambda: f"{stage} on {target}: {name} is missing")
                    problem = judge(os.path.join(disk, "out", name), [rows])
                    ctx.check(problem is None, "one-failure-loses-others",
                              lambda: f"{stage} on {target}: {name}: {problem}")
            problem = "missing" if target[4:] not in found else \
                judge(os.path.join(disk, target), [new[target[4:]]])
            if problem and text is not None:
                ctx.probe("failed_write_logged")
                ctx.check("ERROR" in text, "failure-not-reported",
                          lambda: f"{stage}: {target} {problem}, but nothing is logged")
    out = ctx.spawn(annot.run, "annotate.py", argv, table, root=disk, fs=dict(plan["disk"], faults=[]))
    ctx.check(out.ok, "annotation-failed", lambda: f"{out} {out.tb}")
    found = check_files("undisturbed run", True)
    for name in new:
        ctx.check(name in found, "no-labels", lambda: f"no file {name}")
    ctx.event("files", sorted(found))
