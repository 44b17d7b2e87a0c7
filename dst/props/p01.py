"""P01: aggregation keeps every row with its piece, whatever the listing order and bad files."""
import os

from dst import gen
from dst.common import ASSUME_DISK, ASSUME_PY, STUB_DISK, rand_disk, rand_listing, read_tsv
from dst.kernel import Invalid

PROPERTY = "P01"
BUDGET = {
    "quick": {"runs": 800, "wall_s": 420},
    "thorough": {"runs": 12000, "wall_s": 3300},
}
RULE = (
    "one run = one seeded split corpus (1-6 pieces in 1-3 possibly nested corpora, equal file names "
    "across corpora, differing columns, absent or damaged tables) aggregated under a seeded directory "
    "listing order, short transfers and at most three read faults, compared row by row with a "
    "reference aggregation, and aggregated again under another listing order; non-trivial = a "
    "non-sorted listing, a short transfer or a fault actually occurred"
)
REAL = ["aggregate_annotation_dfs / aggregate_corpus_data.py", "pandas", "glob", "pathlib"]
STUBS = [STUB_DISK]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY,
               "errors while listing a directory are not injected (the standard library's glob "
               "hides them from every caller)"]

KINDS = ("harmonies", "notes", "measures")


def generate(rng, tier, index):
    faulty = rng.random() < 0.5
    corpora = [rng.choice(["a", "b", "c/d", "d", "z/a"]) for _ in range(rng.randint(1, 3))]
    pieces = []
    for _ in range(rng.randint(1, 6)):
        piece = gen.rand_piece(rng, rng.choice(corpora), rng.choice("qrstuv"), 3, applied=True)
        if any((p["corpus"], p["name"]) == (piece["corpus"], piece["name"]) for p in pieces):
            continue
        piece["absent"] = [k for k in KINDS if rng.random() < 0.1]
        piece["damage"] = {}
        if faulty and rng.random() < 0.3:
            piece["damage"][rng.choice(KINDS)] = rng.choice(["empty", "binary", "dir", "ragged"])
        piece["drop"] = [k for k in KINDS if rng.random() < 0.2]  # fewer columns
        piece["extra"] = [k for k in KINDS if rng.random() < 0.2]  # more columns
        pieces.append(piece)
    disk = rand_disk(rng)
    if faulty:
        for _ in range(rng.randint(0, 3)):
            victim = rng.choice(pieces)
            disk["faults"].append({
                "kind": rng.choice(["eio", "eacces", "enoent", "emfile"]),
                "ops": [rng.choice(["open_r", "read"])],
                "path": f"{victim['corpus']}/{rng.choice(KINDS)}/{victim['name']}.tsv",
                "at": rng.choice([0, 0, 0, 1, 2]),
            })
    return {
        "pieces": pieces, "disk": disk, "notes_only": rng.random() < 0.3,
        "again": rand_listing(rng), "script": rng.random() < 0.15,
    }


def content(piece):
    """Tables of a piece with the plan's column variations and an attribution column."""
    out = {}
    for kind, (cols, rows) in gen.tables(piece).items():
        cols, rows = list(cols), [list(r) for r in rows]
        if kind in piece.get("drop", []):
            cols, rows = cols[:-1], [r[:-1] for r in rows]
        if kind in piece.get("extra", []):
            cols = cols + ["remark"]
            rows = [r + [f"x{i}"] for i, r in enumerate(rows)]
        cols = cols + ["src"]
        rows = [r + [f"{piece['corpus']}/{piece['name']}/{kind}/{i}"] for i, r in enumerate(rows)]
        out[kind] = (cols, rows)
    return out


def write(root, pieces):
    for piece in pieces:
        for kind, (cols, rows) in content(piece).items():
            folder = os.path.join(root, piece["corpus"], kind)
            path = os.path.join(folder, piece["name"] + ".tsv")
            os.makedirs(folder, exist_ok=True)
            if kind in piece.get("absent", []):
                continue
            damage = piece.get("damage", {}).get(kind)
            if damage == "dir":
                os.makedirs(path)
                continue
            data = gen.tsv(cols, rows).encode()
            if damage == "empty":
                data = b""
            elif damage == "binary":
                data = b"mc\tmn\n\xff\xfe\x00\x81\xff"
            elif damage == "ragged":  # a row with more cells than there are columns
                data = data + b"1\t" * (len(cols) + 2) + b"1\n" if rows else b""
            with open(path, "wb") as out:
                out.write(data)


def aggregate(out_dir, notes_only, script):
    if script:
        from dst.boot import REPO
        from dst.proc import run_script

        argv = ["-i", "ann", "-o", out_dir] + (["--notes-only"] if notes_only else [])
        return run_script(os.path.join(REPO, "aggregate_corpus_data.py"), argv)
    from harmonic_inference.data.corpus_reading import aggregate_annotation_dfs

    aggregate_annotation_dfs("ann", out_dir, notes_only=notes_only)


def key_of(piece):
    return piece["corpus"].split("/")[-1], piece["name"] + ".tsv"


def read_output(ctx, folder):
    """{(id): (corpus, name)}, {kind: (cols, [(id, sub, row dict)])} from the written tables."""
    files = {}
    cols, rows = read_tsv(os.path.join(folder, "files.tsv"))
    ctx.check(cols[1:] == ["corpus_name", "file_name"], "files-columns", f"columns {cols}")
    for row in rows:
        ctx.check(int(row[0]) not in files, "duplicate-id", f"id {row[0]} listed twice")
        files[int(row[0])] = (row[1], row[2])
    tables = {}
    for kind, name, sub in (("harmonies", "chords", "chord_id"), ("notes", "notes", "note_id"),
                            ("measures", "measures", "measure_id")):
        path = os.path.join(folder, name + ".tsv")
        if not os.path.exists(path):
            tables[kind] = None
            continue
        cols, rows = read_tsv(path)
        ctx.check(cols[:2] == ["file_id", sub], "index-columns", f"{name}: {cols[:3]}")
        tables[kind] = [(int(r[0]), int(r[1]), dict(zip(cols[2:], r[2:]))) for r in rows]
    return files, tables


def readable(piece, kind, log):
    """May the aggregation have read this table?  True / False (fault-free: exact)."""
    if kind in piece.get("absent", []) or piece.get("damage", {}).get(kind):
        return False
    rel = f"ann/{piece['corpus']}/{kind}/{piece['name']}.tsv"
    return not any(line.startswith("!! ") and line.endswith(" " + rel) for line in log)


def check_tables(ctx, plan, folder, log):
    listed_kind = "notes" if plan["notes_only"] else "harmonies"
    # What the directory listing shows: a file (or a directory in its place) with that name
    listed = [p for p in plan["pieces"] if listed_kind not in p.get("absent", [])]
    if not listed:
        ctx.check(not os.path.exists(os.path.join(folder, "files.tsv")), "phantom-output",
                  "nothing to aggregate, but files.tsv was written")
        return
    ctx.check(os.path.exists(os.path.join(folder, "files.tsv")), "missing-output",
              "files.tsv was not written")
    files, tables = read_output(ctx, folder)
    want = sorted(key_of(p) for p in listed)
    ctx.check(sorted(files.values()) == want, "wrong-file-list",
              lambda: f"listed {sorted(files.values())}, expected {want}")
    # Attribute ids to pieces through the rows themselves, then compare everything.
    for kind in KINDS:
        rows = tables[kind]
        got = {}
        for file_id, sub, row in rows or []:
            ctx.check(file_id in files, "unknown-id", f"{kind} row for unlisted id {file_id}")
            src = row.get("src", "")
            owner = [p for p in listed
                     if src.startswith(f"{p['corpus']}/{p['name']}/{kind}/")]
            ctx.check(len(owner) == 1, "unattributable-row", f"{kind} id {file_id}: src={src!r}")
            owner = owner[0]
            ctx.check(files[file_id] == key_of(owner), "row-of-another-piece",
                      lambda: f"{kind} row {src} filed under id {file_id} = {files[file_id]}")
            got.setdefault((file_id, owner["corpus"]), []).append((sub, row))
        seen = set()
        for (file_id, corpus), items in got.items():
            owner = [p for p in listed if p["corpus"] == corpus
                     and key_of(p) == files[file_id]][0]
            ident = (owner["corpus"], owner["name"])
            ctx.check(ident not in seen, "piece-filed-twice", f"{kind} {ident}")
            seen.add(ident)
            cols, expect = content(owner)[kind]
            expect = [dict(zip(cols, r)) for r in expect]
            ctx.check([s for s, _ in items] == list(range(len(expect))), "wrong-row-numbers",
                      lambda: f"{kind} {ident}: {[s for s, _ in items]}")
            for want_row, (_, row) in zip(expect, items):
                full = {c: want_row.get(c, "") for c in row}
                ctx.check(set(want_row) <= set(row) and row == full, "changed-row",
                          lambda: f"{kind} {ident}: {row} expected {full}")
        expected = {(p["corpus"], p["name"]) for p in listed
                    if readable(p, kind, log) and content(p)[kind][1]}
        ctx.check(seen == expected, "missing-or-extra-piece",
                  lambda: f"{kind}: rows of {sorted(seen)}, expected {sorted(expected)}")
        if seen:
            ctx.probe(f"compared_{kind}", len(seen))
    if len(tables) and len({f for f in files.values()}) < len(files):
        ctx.probe("equal_corpus_and_file_names")
    # One id must mean one piece across the three tables
    owner_of = {}
    for kind in KINDS:
        for file_id, _, row in tables[kind] or []:
            src = row["src"].rsplit("/", 2)[0]
            ctx.check(owner_of.setdefault(file_id, src) == src, "id-means-two-pieces",
                      f"id {file_id}: {owner_of[file_id]} and {src}")


def execute(ctx, plan):
    if not plan["pieces"]:
        raise Invalid()
    disk_root = ctx.path("disk")
    write(os.path.join(disk_root, "ann"), plan["pieces"])
    if any(p.get("damage") or p.get("absent") for p in plan["pieces"]):
        ctx.probe("bad_tables")
    out = ctx.spawn(aggregate, "out", plan["notes_only"], plan["script"], fs=plan["disk"])
    ctx.check(out.ok, "aggregation-failed", lambda: f"{out} {out.tb}")
    check_tables(ctx, plan, os.path.join(disk_root, "out"), out.log)
    if not out.fired.keys() & {"eio", "eacces", "enoent", "emfile"}:
        second = ctx.spawn(aggregate, "out2", plan["notes_only"], False,
                           fs={"listing": plan["again"]})
        ctx.check(second.ok, "aggregation-failed", lambda: f"{second} {second.tb}")
        for name in ("files", "chords", "notes", "measures"):
            blobs = []
            for folder in ("out", "out2"):
                path = os.path.join(disk_root, folder, name + ".tsv")
                blobs.append(open(path, "rb").read() if os.path.exists(path) else None)
            ctx.check(blobs[0] == blobs[1], "depends-on-listing-order",
                      f"{name}.tsv differs between two listing orders of the same corpus")
        ctx.probe("two_listing_orders")
