"""P25: the commands of a grid search cover every combination once, each in a place of its own."""
import itertools
import json
import os
import shlex

from dst import annot, gen, refpiece
from dst.common import ASSUME_DISK, ASSUME_PY, STUB_DISK, STUB_H5, STUB_TORCH, rand_disk, tree
from dst.kernel import Invalid
from dst.proc import run_script
from dst.props.p03 import piece_tables, write_corpus
from dst.props.p18 import MODELS, PLAIN, SETTINGS

PROPERTY = "P25"
BUDGET = {
    "quick": {"runs": 100, "wall_s": 420},
    "thorough": {"runs": 5000, "wall_s": 3300},
}
RULE = (
    "one run = grid_search.py with seeded value lists for 0-3 of the twelve settings, checkpoints, data and output "
    "in seeded places (also with spaces in their names); the printed command lines are split as a shell does and "
    "executed one after the other in a seeded order, some killed or failing at a seeded write and then repeated; at "
    "the end every combination must have one log of its own, written under its own settings, models and pieces; "
    "non-trivial = several combinations or a fault"
)
REAL = ["grid_search.py", "test.py", "add_joint_model_args", "from_args", "load_models_from_argparse", "load_pieces"]
STUBS = [STUB_DISK, STUB_TORCH, STUB_H5, "decoder: writes its settings to the log and gives no answer"]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY]
EXTRA = {"max-chord-length": ["4", "13/2", "8"], "ksm-exponent": [10, 30, 0.5], "beam-size": [3, 20, 100],
         "min-chord-change-prob": [0.1, 0.3, 1e-07], "hash-length": [1, 2, 12],
         "max-no-chord-change-prob": [0.45, 0.4501, 0.4500001], "target-key-branch-prob": [0.6666666667, 0.67, 0.7]}


def generate(rng, tier, index):
    grid = {}
    for name in rng.sample(sorted(SETTINGS), rng.choice([0, 1, 2, 2, 3])):
        values = EXTRA.get(name, SETTINGS[name])
        grid[name] = rng.sample(values, rng.randint(1, len(values)))
    pieces = [gen.rand_piece(rng, rng.choice("ab"), f"p{i}", 1, rich=False) for i in range(2)]
    runs = [{"order": rng.randrange(64),
             "fault": None if rng.random() < 0.7 else
             {"kind": rng.choice(["crash", "torn", "enospc", "eio"]), "at": rng.randrange(12), "keep": rng.randrange(99)}}
            for _ in range(16)]
    return {"grid": grid, "pieces": pieces, "runs": runs, "disk": rand_disk(rng, short=0.15),
            "seed": rng.choice([None, 0, 3]), "test": rng.randrange(2), "input": rng.choice([None, "in", "my in"]),
            "output": rng.choice([None, "out", "my out/deep", "/out"]), "ckpt": rng.choice([None, "ck", "my ck", "some/ck"]),
            "h5": rng.choice([None, "h5 data", "data"]), "icm": rng.choice([None, "p.json", "my priors/p.json"]),
            "threads": rng.choice([None, 2]),
            "pick": {name: rng.choice([None, None, None, "version", "path", "both"]) for name in MODELS}}


def search(argv):
    """The lines which grid_search.py prints."""
    import contextlib
    import io

    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        run_script(os.path.join(annot.REPO, "grid_search.py"), argv)
    return text.getvalue().splitlines()


def prepare(plan):
    """File ids of the splits of two seeds."""
    import h5py

    folder = plan["h5"] or "h5_data"
    os.makedirs(folder)
    for seed in (0, 3):
        for split in ("valid", "test"):
            with h5py.File(f"{folder}/ChordTransitionDataset_{split}_seed_{seed}.h5", "w") as handle:
                handle.create_dataset("file_ids", data=[(seed + (split == "test")) % 2])


def evaluation(argv):
    """python test.py <argv>, with a decoder that writes down what it is."""
    import inspect
    import logging

    import pytorch_lightning as pl

    import harmonic_inference.models.joint_model as jm
    from dst import joint

    made = {}

    def build(cls):
        if not made:
            models = joint.sub_models({"weights": 1, "scale": 1, "pitch_based": 0})
            made.update({type(m).__name__: m for m in models.values()})
        return made[cls.__name__]

    original = jm.HarmonicInferenceModel.__init__
    signature = inspect.signature(original)
    facts = {}

    def init(self, *args, **kwargs):
        original(self, *args, **kwargs)
        bound = signature.bind(self, *args, **kwargs)
        bound.apply_defaults()
        given = dict(bound.arguments)
        models = given.pop("models")
        given.pop("self")
        facts.update({k: float(v) for k, v in given.items() if v is not None})
        facts.update({n: getattr(m, "checkpoint_tag", None) for n, m in models.items()})
        facts["icm"] = round(float(models["icm"].get_prior(False, log=False)[0]), 9)

    def answer(self, piece, **_forces):
        logging.info("FACTS %s", json.dumps(dict(facts, piece=piece.name), sort_keys=True))

    pl.BUILD = build
    jm.HarmonicInferenceModel.__init__ = init
    jm.HarmonicInferenceModel.get_harmony = answer
    logging.getLogger().handlers[:] = []
    run_script(os.path.join(annot.REPO, "test.py"), argv)


def write_models(plan, disk):
    """Checkpoints and priors; (arguments, expected facts)."""
    base = plan["ckpt"] or "checkpoints"
    argv, want = [], {}
    for name in MODELS:
        paths = []
        for version in (0, 1):
            folder = os.path.join(base, name, "lightning_logs", f"version_{version}", "checkpoints")
            os.makedirs(os.path.join(disk, folder))
            paths.append(os.path.join(folder, "a.ckpt"))
            with open(os.path.join(disk, paths[-1]), "w") as out:
                json.dump({"class": annot.CHECKPOINTS[name], "tag": paths[-1], "end": 1}, out)
        how, chosen = plan["pick"].get(name), paths[1]
        if how in ("path", "both"):
            argv += [f"--{name}", paths[0]]
            chosen = paths[0]
        if how in ("version", "both"):
            version = 0 if how == "version" else 1
            argv += [f"--{name}-version", str(version)]
            chosen = paths[version]
        want[name] = chosen
    length = sum(annot.inversions(k) for k in annot.SHORT) * 29
    for number, path in enumerate([os.path.join(base, "icm", "initial_chord_prior.json"), plan["icm"]]):
        if path is None:
            continue
        os.makedirs(os.path.dirname(os.path.join(disk, path)), exist_ok=True)
        prior = [(2 + number) / (length + 1 + number)] + [1 / (length + 1 + number)] * (length - 1)
        want["icm"] = round(prior[0], 9)
        with open(os.path.join(disk, path), "w") as out:
            json.dump({"pitch_type": "PitchType.TPC", "inversions_present": True, "reduction_present": None,
                       "major": prior, "minor": prior}, out)
    if plan["icm"]:
        argv += ["--icm-json", plan["icm"]]
    return argv, want


def number(value):
    top, _, bottom = str(value).partition("/")
    return float(top) / float(bottom or 1)


def execute(ctx, plan):
    if len(plan["pieces"]) != 2 or any(not v for v in plan["grid"].values()) or not plan["runs"]:
        raise Invalid()
    if any(refpiece.from_tables(p, piece_tables(p), "p") is None for p in plan["pieces"]):
        raise Invalid()
    disk = ctx.path("disk")
    os.makedirs(disk, exist_ok=True)
    output = plan["output"] or "output"
    if output.startswith("/"):  # an absolute path
        output = os.path.join(os.path.realpath(disk), output[1:])
    write_corpus(os.path.join(disk, plan["input"] or "corpus_data"), plan["pieces"])
    argv, want = write_models(plan, disk)
    for flag, value in (("--seed", plan["seed"]), ("-i", plan["input"]), ("-o", plan["output"] and output),
                        ("--checkpoint", plan["ckpt"]), ("-h5", plan["h5"]), ("--threads", plan["threads"])):
        if value is not None:
            argv += [flag, str(value)]
    if plan["test"]:
        argv.append("--test")
    for name, values in plan["grid"].items():
        argv += ["--" + name] + [str(v) for v in values]
    ctx.check(ctx.spawn(prepare, plan, root=disk, fs={}).ok, "harness", "data could not be written")
    out = ctx.spawn(search, argv, root=disk, fs={})
    ctx.check(out.ok, "no-commands", lambda: f"grid_search.py {argv}: {out} {out.tb}")
    commands = [shlex.split(line) for line in out.value if line.strip()]
    ctx.event("commands", len(commands))
    names = list(plan["grid"])
    combos = [dict(zip(names, values)) for values in itertools.product(*plan["grid"].values())]
    ctx.check(len(commands) == len(combos) and all(c[:2] == ["python", "test.py"] for c in commands),
              "not-every-combination-once", lambda: f"{len(commands)} commands for {len(combos)} combinations")
    before = set(tree(disk))
    todo = list(range(len(commands)))
    ctx.nontrivial = len(todo) > 1
    step = 0
    while todo:
        spec = plan["runs"][step % len(plan["runs"])] if step < 40 else {"order": 0, "fault": None}
        step += 1
        which = todo[spec["order"] % len(todo)]
        faults = []
        if spec["fault"]:
            faults = [dict(spec["fault"], path=".log", ops=["open_w", "write"], sticky=False)]
        out = ctx.spawn(evaluation, commands[which][2:], root=disk, fs=dict(plan["disk"], faults=faults))
        hit = [k for k in ("crash", "torn", "enospc", "eio") if out.fired.get(k)]
        if hit:  # to be repeated
            ctx.nontrivial = True
            ctx.probe("repeated")
            continue
        ctx.check(out.ok, "command-fails", lambda: f"{shlex.join(commands[which])}: {out} {out.tb} {out.stdout[-300:]}")
        todo.remove(which)
    logs = {path: data.decode() for path, data in tree(disk).items() if path not in before}
    place = os.path.normpath((plan["output"] or "output").lstrip("/"))
    found = []
    for path, text in sorted(logs.items()):
        ctx.check(path.startswith(place + os.sep), "wrong-place", lambda: f"{path} is not below {place}")
        facts = [json.loads(line.split("FACTS ", 1)[1]) for line in text.splitlines() if "FACTS " in line]
        ctx.event("log", path, text.count("\n"))
        ctx.check(len(facts) == 1, "mixed-results", lambda: f"{path}: {len(facts)} evaluations of one piece")
        found.append((path, facts[0]))
    ctx.check(len(found) == len(combos), "results-share-a-place",
              lambda: f"{len(found)} logs for {len(combos)} combinations: {sorted(logs)}")
    split = ((plan["seed"] or 0) + plan["test"]) % 2
    piece = f"{split}: {plan['pieces'][split]['corpus']}/{plan['pieces'][split]['name']}.tsv"
    wanted = []
    for combo in combos:
        settings = {k: float(v) for k, v in PLAIN.items()}
        settings.update({k.replace("-", "_"): number(v) for k, v in combo.items()})
        wanted.append(dict(settings, **want, piece=piece))
    for path, facts in found:
        ctx.check(facts in wanted, "wrong-settings",
                  lambda: f"{path}: {facts}; expected one of {wanted[:2]} ... ({argv})")
        wanted.remove(facts)
