"""P02: an interrupted aggregation can never be loaded as if it were complete."""
import os

from dst import gen
from dst.common import ASSUME_DISK, ASSUME_PY, STUB_DISK, frame_rows, rand_disk
from dst.kernel import Invalid

PROPERTY = "P02"
BUDGET = {
    "quick": {"runs": 700, "wall_s": 420},
    "thorough": {"runs": 9000, "wall_s": 3300},
}
RULE = (
    "one run = an output folder (fresh or holding an earlier aggregation), then 1-3 aggregations of a "
    "changed corpus each hit by a seeded crash, torn write, full disk or write error at a seeded I/O "
    "step, the loader run after each, and one undisturbed re-run; non-trivial = a fault fired"
)
REAL = ["aggregate_annotation_dfs / aggregate_corpus_data.py", "load_clean_corpus_dfs", "pandas"]
STUBS = [STUB_DISK]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY]
TABLES = ("files.tsv", "chords.tsv", "notes.tsv", "measures.tsv")
MUTATING = ["open_w", "write", "mkdir", "rename", "remove", "rmdir", "truncate", "chmod"]


def rand_corpus(rng, low):
    pieces = []
    for i in range(rng.randint(low, 3)):
        piece = gen.rand_piece(rng, rng.choice("ab"), f"p{i}", 3, applied=True)
        if rng.random() < 0.15:
            piece["absent"] = [rng.choice(["harmonies", "notes", "measures"])]
        pieces.append(piece)
    return pieces


def generate(rng, tier, index):
    old = rand_corpus(rng, 0)
    new = rand_corpus(rng, 1)
    if old and rng.random() < 0.5:  # the usual case: the corpus grew or shrank a little
        new = old[: rng.randint(0, len(old))] + new[:1]
        new = [dict(p, name=f"n{i}") if i else p for i, p in enumerate(new)]
    attempts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        kind = rng.choice(["crash", "crash", "torn", "enospc", "eio", "eacces"])
        attempts.append({
            "kind": kind,
            "step": rng.randrange(1 << 12),
            "keep": rng.randrange(1 << 12),
            "sticky": rng.random() < 0.5,
            "disk": rand_disk(rng, short=0.15),
            "locked": rng.randrange(4) if rng.random() < 0.2 else None,
        })
    return {"old": old, "new": new, "attempts": attempts, "notes_only": rng.random() < 0.3,
            "script": rng.random() < 0.15}


def aggregate(source, out_dir, notes_only, script):
    if script:
        from dst.boot import REPO
        from dst.proc import run_script

        argv = ["-i", source, "-o", out_dir] + (["--notes-only"] if notes_only else [])
        return run_script(os.path.join(REPO, "aggregate_corpus_data.py"), argv)
    from harmonic_inference.data.corpus_reading import aggregate_annotation_dfs

    aggregate_annotation_dfs(source, out_dir, notes_only=notes_only)


def load(folder):
    from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs

    return [frame_rows(df) for df in load_clean_corpus_dfs(folder)]


def snapshot(folder):
    out = {}
    for name in TABLES:
        path = os.path.join(folder, name)
        if os.path.isfile(path):
            with open(path, "rb") as handle:
                out[name] = handle.read()
    return out


def execute(ctx, plan):
    if not plan["new"] or not plan["attempts"]:
        raise Invalid()
    names = [(p["corpus"], p["name"]) for p in plan["new"]]
    if len(set(names)) < len(names):
        raise Invalid()
    disk, ref = ctx.path("disk"), ctx.path("ref")
    for root in (disk, ref):
        gen.write_split_corpus(os.path.join(root, "ann_new"), plan["new"])
        gen.write_split_corpus(os.path.join(root, "ann_old"), plan["old"])
    listed_kind = "notes" if plan["notes_only"] else "harmonies"
    if not any(listed_kind not in p.get("absent", []) for p in plan["new"]):
        raise Invalid()
    # Reference results, undisturbed
    good = ctx.spawn(aggregate, "ann_new", "new", plan["notes_only"], plan["script"], root=ref)
    ctx.check(good.ok, "aggregation-failed", lambda: f"{good} {good.tb}")
    want_new = snapshot(os.path.join(ref, "new"))
    want_old = {}
    if plan["old"]:
        out = ctx.spawn(aggregate, "ann_old", "out", plan["notes_only"], False, root=disk)
        ctx.check(out.ok, "aggregation-failed", lambda: f"{out} {out.tb}")
        want_old = snapshot(os.path.join(disk, "out"))
    # Dry run over the real starting state, to know how many steps there are to disturb
    import shutil

    counted = ctx.path("count")
    shutil.copytree(disk, counted)
    for attempt in plan["attempts"]:
        dry = ctx.spawn(aggregate, "ann_new", "out", plan["notes_only"], plan["script"],
                        root=counted, fs=dict(attempt["disk"], faults=[]))
        ctx.check(dry.ok, "aggregation-failed", lambda: f"{dry} {dry.tb}")
        shutil.rmtree(counted)
        shutil.copytree(disk, counted)
        kind = attempt["kind"]
        ops = MUTATING if kind in ("crash", "torn") else ["open_w", "write", "rename", "mkdir", "remove"]
        total = sum(dry.ops.get(op, 0) for op in ops)
        if not total:
            raise Invalid()
        fault = {"kind": kind, "ops": ops, "at": attempt["step"] % total, "path": None,
                 "keep": attempt["keep"], "sticky": attempt["sticky"] and kind not in
                 ("crash", "torn")}
        faults = [fault]
        if attempt.get("locked") is not None:  # one of the older files cannot be removed
            faults.append({"kind": "eacces", "ops": ["remove"], "at": attempt["locked"], "path": "out/"})
        out = ctx.spawn(aggregate, "ann_new", "out", plan["notes_only"], plan["script"],
                        root=disk, fs=dict(attempt["disk"], faults=faults))
        state = snapshot(os.path.join(disk, "out"))
        if out.ok:
            ctx.check(state == want_new, "reported-success-but-incomplete",
                      lambda: f"{kind} at step {fault['at']} was swallowed; tables "
                              f"{sorted(k for k in TABLES if state.get(k) != want_new.get(k))} wrong")
            continue
        if state == want_new or (state == want_old and plan["old"]):
            ctx.probe("left_old_or_new")
        else:
            seen = ctx.spawn(load, "out", root=disk)
            if seen.ok:
                allowed = []
                if plan["old"]:
                    allowed.append(reload(ctx, ref, want_old))
                allowed.append(reload(ctx, ref, want_new))
                ctx.check(seen.value in allowed, "mixture-loaded",
                          lambda: f"after {kind} at step {fault['at']} of {total} "
                                  f"({out.log[-1:]}) the loader returned data of neither run; "
                                  f"files present: {sorted(state)}")
                ctx.probe("loaded_whole_run")
            else:
                ctx.probe("load_refused")
    final = ctx.spawn(aggregate, "ann_new", "out", plan["notes_only"], plan["script"], root=disk)
    ctx.check(final.ok, "rerun-failed", lambda: f"{final} {final.tb}")
    state = snapshot(os.path.join(disk, "out"))
    ctx.check(state == want_new, "rerun-differs",
              lambda: "after an undisturbed re-run these tables differ from a fresh aggregation: "
                      f"{sorted(k for k in TABLES if state.get(k) != want_new.get(k))}")


def reload(ctx, ref, tables):
    folder = os.path.join(ref, "reload")
    import shutil

    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    for name, data in tables.items():
        with open(os.path.join(folder, name), "wb") as out:
            out.write(data)
    out = ctx.spawn(load, "reload", root=ref)
    return out.value if out.ok else None
