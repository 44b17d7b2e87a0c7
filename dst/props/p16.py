"""P16: every label file goes onto the score of its own piece and onto no other."""
import os

from dst.boot import REPO
from dst.common import ASSUME_DISK, ASSUME_PY, STUB_DISK, STUB_TORCH, rand_disk, tree
from dst.kernel import Invalid
from dst.proc import run_script

PROPERTY = "P16"
BUDGET = {
    "quick": {"runs": 1000, "wall_s": 420},
    "thorough": {"runs": 20000, "wall_s": 3300},
}
RULE = (
    "one run = write_to_score.py over 1-12 label files in 1-3 (also nested) folders with similar and unusual names, each folder with "
    "scores (some missing, some damaged, some for other pieces) listed in arbitrary order, with seeded read and "
    "write errors, and in half of the runs repeated with the same or corrected labels; non-trivial = a score is damaged or missing, a fault fired or the listing was permuted"
)
REAL = ["write_to_score.py", "write_labels_to_score", "glob"]
STUBS = [STUB_DISK, STUB_TORCH,
         "ms3.Parse: stand-in which collects files by ms3's rules (os.scandir, re.search on the name, recursive), "
         "matches labels to scores by equal stem and writes <stem><suffix>.mscx; a damaged score raises on parsing"]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY, "ms3 matches files of one folder by equal stem"]
NAMES = ["op1", "p1", "1", "op1_2", "no. 1 (alt)", "k.331", "kx331", "c++", "a[2]", "op1 (copy)", "$x", "p1_results"]


def generate(rng, tier, index):
    folders = []
    for corpus in rng.sample(["a", "b", "bb", "c/one", "c/two", "d/e/f"], rng.choice([1, 1, 2, 3])):
        pieces = []
        for name in rng.sample(NAMES, rng.randint(1, 4)):
            pieces.append({"name": name, "labels": rng.random() < 0.85,
                           "score": rng.choice(["ok", "ok", "ok", "damaged", "missing"]),
                           "deep": rng.random() < 0.5})
        folders.append({"corpus": corpus, "pieces": pieces})
    fault = None
    if rng.random() < 0.35:
        fault = {"kind": rng.choice(["eio", "enospc", "eacces"]), "op": rng.choice(["open_r", "write", "open_w"]),
                 "at": rng.randrange(12)}
    return {"folders": folders, "fault": fault, "disk": rand_disk(rng),
            "again": rng.choice([None, None, "same", "corrected"])}


class Parse:
    """The part of ms3.Parse which decides which files belong together."""

    def __init__(self, dir=None, key=None, file_re=None, folder_re=".*", exclude_re=r"^(\.|_)", recursive=True,
                 **_kwargs):
        self.files, self.matches = {}, []
        if dir is not None:
            self.add_dir(dir, key=key, file_re=file_re, folder_re=folder_re, exclude_re=exclude_re,
                         recursive=recursive)

    def add_dir(self, dir, key=None, index=None, file_re=None, folder_re=".*", exclude_re=r"^(\.|__)",
                recursive=True):
        import re

        def walk(folder):
            for entry in os.scandir(folder):
                if entry.is_dir() and recursive:
                    if re.search(folder_re, entry.name) and not re.search(exclude_re, entry.name):
                        yield from walk(os.path.join(folder, entry.name))
                elif entry.is_file() and re.search(file_re or r"\.(mscx|tsv)$", entry.name) \
                        and not re.search(exclude_re, entry.name):
                    yield os.path.join(folder, entry.name)

        base = os.path.abspath(str(dir))
        for path in walk(base):
            inside = os.path.relpath(os.path.dirname(path), base)
            group = key or (os.path.basename(base) if inside == "." else inside)
            self.files.setdefault(group, []).append(path)

    def parse(self, *_args, **_kwargs):
        self.text = {}
        for paths in self.files.values():
            for path in paths:
                with open(path, encoding="utf-8") as handle:
                    self.text[path] = handle.read()
                if self.text[path].startswith("damaged"):
                    raise ValueError(f"cannot parse {path}")

    def add_detached_annotations(self, score_key=None, tsv_key=None, **_kwargs):
        for score in self.files.get(score_key, []):
            if not score.endswith(".mscx"):
                continue
            for labels in self.files.get(tsv_key, []):
                if labels.endswith(".tsv") and stem(labels) == stem(score):
                    self.matches.append((score, labels))

    def attach_labels(self, *_args, **_kwargs):
        pass

    def store_mscx(self, keys=None, root_dir=None, folder=".", suffix="", overwrite=False, **_kwargs):
        for paths in self.files.values():
            for score in paths:
                if not score.endswith(".mscx"):
                    continue
                on_it = [labels for s, labels in self.matches if s == score]
                target = os.path.join(str(root_dir), stem(score) + suffix + ".mscx")
                if os.path.exists(target) and not overwrite:
                    continue
                with open(target, "w", encoding="utf-8") as out:
                    out.write(self.text[score] + "".join("\n+" + self.text[labels] for labels in on_it))


def stem(path):
    return os.path.splitext(os.path.basename(path))[0]


def write_scores():
    import ms3

    import harmonic_inference.utils.eval_utils as eu

    ms3.Parse = Parse
    eu.Parse = Parse
    import logging

    logging.getLogger().handlers[:] = [logging.FileHandler("errors.log", "w", "utf-8")]
    run_script(os.path.join(REPO, "write_to_score.py"), ["-o", "out", "--annotations", "notes"])


def execute(ctx, plan):
    disk = ctx.path("disk")
    want, any_labels = {}, False
    if len({f["corpus"] for f in plan["folders"]}) < len(plan["folders"]):
        raise Invalid()
    for folder in plan["folders"]:
        corpus = folder["corpus"]
        if len({p["name"] for p in folder["pieces"]}) < len(folder["pieces"]):
            raise Invalid()
        os.makedirs(os.path.join(disk, "out", corpus), exist_ok=True)
        os.makedirs(os.path.join(disk, "notes", corpus, "MS3"), exist_ok=True)
        for piece in folder["pieces"]:
            name = piece["name"]
            if piece["labels"]:
                any_labels = True
                with open(os.path.join(disk, "out", corpus, name + ".tsv"), "w") as out:
                    out.write(f"labels of {corpus}/{name}")
            if piece["score"] != "missing":
                text = f"{'damaged ' if piece['score'] == 'damaged' else ''}score of {corpus}/{name}"
                with open(os.path.join(disk, "notes", corpus, "MS3", name + ".mscx"), "w") as out:
                    out.write(text)
            if piece["score"] != "ok":
                ctx.nontrivial = True
            elif piece["labels"]:
                want[f"{corpus}/{name}_inferred.mscx"] = \
                    f"score of {corpus}/{name}\n+labels of {corpus}/{name}".encode()
            if piece["deep"]:  # the corpus has label tables of its own, in other folders
                os.makedirs(os.path.join(disk, "notes", corpus, "harmonies"), exist_ok=True)
                with open(os.path.join(disk, "notes", corpus, "harmonies", name + ".tsv"), "w") as out:
                    out.write(f"reference of {corpus}/{name}")
    if not any_labels:
        raise Invalid()
    before = tree(os.path.join(disk, "out"))
    sources = tree(os.path.join(disk, "notes"))
    faults = []
    if plan["fault"]:
        spec = plan["fault"]
        faults = [{"kind": spec["kind"], "ops": [spec["op"]],
                   "path": ".mscx" if spec["op"] == "open_r" else "_inferred", "at": spec["at"]}]
    out = ctx.spawn(write_scores, root=disk, fs=dict(plan["disk"], faults=faults))
    ctx.check(out.ok, "batch-failed", lambda: f"{out} {out.tb}")
    hit = plan["fault"] is not None and out.fired.get(plan["fault"]["kind"], 0) > 0
    if hit or out.fired.get("listing_order"):
        ctx.nontrivial = True
    ctx.check(tree(os.path.join(disk, "notes")) == sources, "sources-changed", "the annotations folder was changed")
    after = tree(os.path.join(disk, "out"))
    for name, data in before.items():
        ctx.check(after.get(name) == data, "labels-changed", lambda: f"{name} was changed")
    made = {name: data for name, data in after.items() if name not in before}
    wrong = [name for name in made if name not in want]
    ctx.check(not wrong, "score-for-nothing", lambda: f"{wrong} were written")
    bad = [name for name in want if made.get(name) != want[name]]
    allowed = 1 if hit else 0
    ctx.check(len(bad) <= allowed, "wrong-score",
              lambda: f"{bad[0]} holds {made.get(bad[0])!r}, expected {want[bad[0]]!r}"
                      + (f" (and {len(bad) - 1} others; one error was injected)" if hit else ""))
    with open(os.path.join(disk, "errors.log")) as handle:
        log = handle.read()
    if bad:
        ctx.probe("one_score_failed")
        ctx.check("Error writing score" in log, "failure-not-reported", lambda: f"{bad[0]} failed silently")
    ctx.event("made", sorted(made))
    if plan["again"]:  # the batch is repeated, also with corrected labels, over what the first one left
        ctx.probe("repeated")
        if plan["again"] == "corrected":
            for name in before:
                with open(os.path.join(disk, "out", name), "ab") as out:
                    out.write(b" corrected")
            want = {name: data + b" corrected" for name, data in want.items()}
        out = ctx.spawn(write_scores, root=disk, fs=dict(plan["disk"], faults=[]))
        ctx.check(out.ok, "batch-failed", lambda: f"repeated: {out} {out.tb}")
        after = tree(os.path.join(disk, "out"))
        made = {name: data for name, data in after.items() if name not in before}
        ctx.check(made == want, "wrong-score",
                  lambda: f"repeated: {sorted(set(made.items()) ^ set(want.items()))[0]!r} differs")
        ctx.check(tree(os.path.join(disk, "notes")) == sources, "sources-changed", "the annotations were changed")
