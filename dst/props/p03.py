"""P03: each piece of a corpus is read as its own tables define; read failures are errors."""
import os
from fractions import Fraction

from dst import gen, model
from dst.common import ASSUME_DISK, ASSUME_PY, STUB_DISK, frame_rows, norm, rand_disk
from dst.kernel import Invalid
from dst.proc import probe

PROPERTY = "P03"
BUDGET = {
    "quick": {"runs": 420, "wall_s": 420},
    "thorough": {"runs": 9000, "wall_s": 3300},
}
RULE = (
    "one run = an aggregated corpus of 1-4 generated pieces (some without one of their tables, some with "
    "stray rows, repeats, pickups, tie chains, old column names), loaded once or twice in one process (also after being replaced) while "
    "the disk gives seeded read errors, missing files, short reads and small buffers; non-trivial = a fault "
    "fired or a piece lacks a table"
)
REAL = ["load_clean_corpus_dfs", "corpus_utils", "pandas"]
STUBS = [STUB_DISK]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY,
               "tie chains in generated pieces are unambiguous (one tied note per pitch and time)"]
NAMES = {"measures": "measures", "notes": "notes", "harmonies": "chords"}
CHECKED = {
    "measures": ("mc", "next", "act_dur"),
    "notes": ("mc", "mn_onset", "duration", "offset_mc", "offset_beat", "midi", "tpc", "tied"),
    "chords": ("mc", "mn_onset", "label", "duration", "mc_next", "mn_onset_next"),
}


def generate(rng, tier, index):
    pieces = []
    for i in range(rng.choice([1, 1, 2, 3, 3, 4])):
        piece = gen.rand_piece(rng, rng.choice("ab"), f"p{i}", 6, applied=True)
        if i and rng.random() < 0.3:
            piece["absent"] = [rng.choice(["harmonies", "notes", "measures"])]
        if rng.random() < 0.3:
            piece["stray"] = [rng.randrange(1 << 10) for _ in range(rng.randint(1, 3))]
        if i and rng.random() < 0.15:
            piece["legacy"] = 1
        for name in ("volta", "dangling", "unsorted", "sparse", "fine"):
            if rng.random() < 0.2:
                piece[name] = rng.randint(1, 2) if name == "volta" else 1
        if rng.random() < 0.4:
            piece["extras"] = [rng.randrange(1 << 10) for _ in range(rng.randint(1, 4))]
        pieces.append(piece)
    loads = []
    for _ in range(rng.choice([1, 1, 2])):
        load = {"disk": rand_disk(rng), "count": None}
        if rng.random() < 0.15:
            load["count"] = rng.randint(1, len(pieces))
        if rng.random() < 0.3:
            load["fault"] = {
                "kind": rng.choice(["eio", "eacces", "emfile", "enoent"]),
                "op": rng.choice(["open_r", "read", "read"]),
                "table": rng.choice(["files", "measures", "notes", "chords", "chords"]),
                "at": rng.randrange(1 << 10),
            }
        loads.append(load)
    gone = rng.choice(["files", "measures", "notes", "chords"]) if rng.random() < 0.1 else None
    later = []
    if len(loads) > 1 and not gone and rng.random() < 0.5:
        # the corpus is replaced between the loads
        later = [gen.rand_piece(rng, "b", f"q{i}", 4, applied=True) for i in range(rng.randint(1, 2))]
        later += rng.sample(pieces[1:], rng.randint(0, len(pieces) - 1))
    return {"pieces": pieces, "loads": loads, "gone": gone, "later": later}


def strays(tabs, piece):
    """Rows which do not belong to any position of the piece, inserted at seeded places."""
    for value in piece.get("stray", []):
        kind = ("notes", "harmonies")[value % 2]
        if kind not in tabs:
            continue
        cols, rows = tabs[kind]
        if not rows:
            continue
        value //= 2
        row = list(rows[value % len(rows)])
        how = (value // 7) % 5
        if how == 0:
            row[cols.index("mc")] = str(int(row[0]) + 3 + value % 4)  # maybe no such measure
        elif how == 1:
            row[cols.index("mn_onset")] = "9/4"  # beyond any measure
        elif how == 2:
            row[cols.index("mn_onset")] = "-1/4"
        elif how == 3:  # exactly at the end of its measure
            m_cols, m_rows = gen.tables(piece)["measures"]
            own = [m for m in m_rows if m[0] == row[0]] or m_rows
            measure = dict(zip(m_cols, own[0]))
            row[cols.index("mn_onset")] = str(Fraction(measure["act_dur"]) + Fraction(measure["mc_offset"]))
        elif kind == "harmonies":
            row[cols.index("numeral")] = ""
        if kind == "notes":
            row[cols.index("tied")] = ""
        else:
            row[cols.index("label")] = f"stray{value}"
        rows.append(row)
        rows.sort(key=lambda r: int(r[0]))
    return tabs


def piece_tables(piece):
    tabs = strays(gen.tables(piece), piece)
    return {k: v for k, v in tabs.items() if k not in piece.get("absent", [])}


def write_corpus(root, pieces):
    os.makedirs(root, exist_ok=True)
    files = "\tcorpus_name\tfile_name\n"
    merged = {}
    for index, piece in enumerate(pieces):
        files += f"{index}\t{piece['corpus']}\t{piece['name']}.tsv\n"
        for kind, (cols, rows) in piece_tables(piece).items():
            cols = list(cols)
            if piece.get("legacy"):
                old = {"measures": ("mc_offset", "offset")}.get(kind, ("mn_onset", "onset"))
                cols[cols.index(old[0])] = old[1]
            head, body = merged.setdefault(kind, ([], []))
            head.extend(c for c in cols if c not in head)
            for j, row in enumerate(rows):
                body.append((index, j, dict(zip(cols, row))))
    with open(os.path.join(root, "files.tsv"), "w") as out:
        out.write(files)
    ident = {"measures": "measure_id", "notes": "note_id", "harmonies": "chord_id"}
    for kind, (head, body) in merged.items():
        with open(os.path.join(root, NAMES[kind] + ".tsv"), "w") as out:
            out.write("\t".join(["file_id", ident[kind]] + head) + "\n")
            for index, j, rec in body:
                out.write("\t".join([str(index), str(j)] + [rec.get(c, "") for c in head]) + "\n")


def load_all(folder, loads):
    """The loads of one process; faults are switched on per load."""
    import builtins

    from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs

    fs = builtins.open.__self__
    results = []
    for load in loads:
        from dst.simfs import Fault

        if load["replaced"]:
            fs.faults = []
            os.rename(folder, folder + ".old")
            os.rename(folder + ".later", folder)
        fs.faults = [Fault(f) for f in load["faults"]]
        fired = dict(fs.fired)
        fs.buffer = load["disk"].get("buffer", 8192)
        fs.short_reads = bool(load["disk"].get("short_reads"))
        fs.schedule = list(load["disk"].get("schedule", []))
        fs._spos = 0
        try:
            frames = load_clean_corpus_dfs(folder, count=load["count"])
            value = ("ok", [frame_rows(df) for df in frames])
        except Exception as error:
            value = ("error", f"{type(error).__name__}: {error}"[:300])
        hit = any(fs.fired.get(k, 0) > fired.get(k, 0) for k in ("eio", "eacces", "emfile", "enoent"))
        if hit:
            probe("read_fault_during_load")
        results.append((value, hit))
    return results


def per_piece(result, index):
    """{kind: {row id: {col: text}}} of one piece."""
    out = {}
    for kind, pos in (("measures", 1), ("chords", 2), ("notes", 3)):
        frame = result[pos]
        rows = {}
        if frame is not None:
            cols, body = frame
            for key, values in body:
                if key[0] == index:
                    if key[1] in rows:
                        rows[("twice", key[1])] = {}
                    rows[key[1]] = dict(zip(cols, values))
        out[kind] = rows
    return out


def execute(ctx, plan):
    pieces = plan["pieces"]
    if not pieces or not plan["loads"] or len({p["name"] for p in pieces}) < len(pieces):
        raise Invalid()
    if pieces[0].get("legacy") or pieces[0].get("absent"):
        raise Invalid()
    disk = ctx.path("disk")
    write_corpus(os.path.join(disk, "corpus"), pieces)
    if plan["gone"]:
        path = os.path.join(disk, "corpus", plan["gone"] + ".tsv")
        if os.path.exists(path):
            os.remove(path)
    required_gone = plan["gone"] in ("files", "measures", "notes")
    if len(pieces) > 1 and any(p.get("absent") for p in pieces):
        ctx.nontrivial = True
        ctx.probe("piece_without_a_table")
    loads = []
    later = plan["later"] if len(plan["loads"]) > 1 and not plan["gone"] else []
    if later:
        if len({p["name"] for p in later}) < len(later) or later[0].get("legacy") or later[0].get("absent"):
            raise Invalid()
        write_corpus(os.path.join(disk, "corpus.later"), later)
        ctx.probe("corpus_replaced")
    for number, load in enumerate(plan["loads"]):
        if number and later:  # sizes and tables of what will be there
            root = os.path.join(disk, "corpus.later")
        else:
            root = os.path.join(disk, "corpus")
        faults = []
        if load.get("fault"):
            spec = load["fault"]
            path = os.path.join(root, spec["table"] + ".tsv")
            if not os.path.exists(path):
                faults = []
            else:
                at = 0
                if spec["op"] == "read":
                    at = spec["at"] % max(1, os.path.getsize(path) // max(load["disk"].get("buffer", 8192), 4096) + 1)
                faults = [{"kind": spec["kind"] if spec["op"] == "open_r" else "eio", "ops": [spec["op"]],
                           "path": f"corpus/{spec['table']}.tsv", "at": at}]
        loads.append({"faults": faults, "disk": load["disk"], "count": load["count"],
                      "replaced": bool(later) and number == 1})
    out = ctx.spawn(load_all, "corpus", loads, root=disk, fs={})
    ctx.check(out.ok, "loader-process-failed", lambda: f"{out} {out.tb}")
    want = [model.clean(piece_tables(p)) for p in pieces]
    there = {n: (os.path.exists(os.path.join(disk, n, "chords.tsv"))) for n in ("corpus", "corpus.old")}
    have_chords = there["corpus.old"] if later else there["corpus"]
    for number, ((value, hit), load) in enumerate(zip(out.value, loads)):
        status, result = value
        if load["replaced"]:
            pieces, have_chords = later, there["corpus"]
            want = [model.clean(piece_tables(p)) for p in pieces]
        ctx.event("load", number, status, result)
        missing_chords = bool(load["faults"]) and load["faults"][0]["path"].endswith("chords.tsv") \
            and load["faults"][0]["kind"] == "enoent"
        if hit and missing_chords and status == "ok":
            have = False  # the file was not there: a corpus without annotations
        elif hit:
            ctx.check(status == "error", "read-failure-hidden",
                      lambda: f"load {number}: {load['faults']} gave no error")
            continue
        else:
            have = have_chords
        if required_gone:
            ctx.check(status == "error", "read-failure-hidden",
                      lambda: f"{plan['gone']}.tsv is missing but loading succeeded")
            continue
        ctx.check(status == "ok", "load-failed", lambda: f"load {number}: {result}")
        count = load["count"] or len(pieces)
        listed = [row for row in result[0][1]]
        ctx.check([r[0][0] for r in listed] == list(range(min(count, len(pieces)))), "files-wrong",
                  lambda: f"files listed: {listed}")
        for index, row in enumerate(listed):
            ctx.check(row[1] == (pieces[index]["corpus"], pieces[index]["name"] + ".tsv"), "files-wrong",
                      lambda: f"file {index} is listed as {row}")
        ctx.check((result[2] is not None) == have, "annotations-appear-or-vanish",
                  lambda: f"chords table present: {have}, loaded: {result[2] is not None}")
        seen_rows = {"measures": 0, "notes": 0, "chords": 0}
        for index in range(min(count, len(pieces))):
            got = per_piece(result, index)
            for kind in ("measures", "notes", "chords"):
                expect = want[index][kind]
                if kind == "chords" and not have:
                    expect = {}
                cut = {i: {c: row.get(c) for c in CHECKED[kind]} for i, row in got[kind].items()}
                expect = {i: {c: norm(row[c]) for c in CHECKED[kind]} for i, row in expect.items()}
                ctx.check(cut == expect, f"wrong-{kind}",
                          lambda: f"load {number}, piece {index} ({pieces[index]['name']}): "
                                  f"{difference(cut, expect)}")
                seen_rows[kind] += len(cut)
        for kind, pos in (("measures", 1), ("chords", 2), ("notes", 3)):
            total = len(result[pos][1]) if result[pos] is not None else 0
            ctx.check(total == seen_rows[kind], "foreign-rows",
                      lambda: f"{kind}: {total} rows loaded, {seen_rows[kind]} belong to listed pieces")


def difference(got, want):
    for i in sorted(set(got) | set(want), key=str):
        if got.get(i) != want.get(i):
            return f"row {i}: loaded {got.get(i)} but the tables define {want.get(i)}"
    return "?"
