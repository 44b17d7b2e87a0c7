"""P18: a run uses exactly the checkpoints and settings it was asked for, or fails."""
import json
import os

from dst import annot, gen, refpiece
from dst.common import ASSUME_DISK, ASSUME_PY, STUB_DISK, STUB_TORCH, rand_disk
from dst.kernel import Invalid
from dst.props.p03 import piece_tables, write_corpus

PROPERTY = "P18"
BUDGET = {
    "quick": {"runs": 220, "wall_s": 420},
    "thorough": {"runs": 9000, "wall_s": 3300},
}
RULE = (
    "one run = annotate.py or test.py with 1-3 versions of 1-2 checkpoints per sub-model (some damaged, of the "
    "wrong kind or missing), chosen by default, version or path, seeded settings or --defaults/--fh-defaults, "
    "directories listed in arbitrary order, seeded read errors on checkpoints and prior; non-trivial = a fault "
    "fired, the listing was permuted, or several checkpoints match"
)
REAL = ["annotate.py", "test.py", "set_default_args", "load_models_from_argparse", "load_kwargs_from_json",
        "from_args", "HarmonicInferenceModel.__init__"]
STUBS = [STUB_DISK, STUB_TORCH, "checkpoint files: small json files which name their model class and a tag",
         "decoder: gives no answer"]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY]
MODELS = ["ccm", "ctm", "csm", "ktm", "ksm"]
CLASSES = dict(annot.CHECKPOINTS)
SETTINGS = {  # option: values a user may give
    "min-chord-change-prob": [0.1, 0.3], "max-no-chord-change-prob": [0.4, 0.6],
    "max-chord-length": [4, 6], "min-key-change-prob": [0.02, 0.2], "max-no-key-change-prob": [0.5, 0.8],
    "beam-size": [3, 20], "max-chord-branching-factor": [2, 7], "target-chord-branch-prob": [0.6, 0.9],
    "max-key-branching-factor": [1, 3], "target-key-branch-prob": [0.4, 0.7], "hash-length": [2, 4],
    "ksm-exponent": [10, 30],
}
PLAIN = dict(min_chord_change_prob=0.25, max_no_chord_change_prob=0.45, max_chord_length=8,
             min_key_change_prob=0.05, max_no_key_change_prob=0.75, beam_size=50, max_chord_branching_factor=5,
             target_chord_branch_prob=0.75, max_key_branching_factor=2, target_key_branch_prob=0.5,
             hash_length=5, ksm_exponent=50)
# the settings of the paper's grid search (README: --defaults and --fh-defaults)
GRID = {0: dict(PLAIN, min_key_change_prob=0.1, ksm_exponent=100), 1: dict(PLAIN, max_no_chord_change_prob=0.5),
        2: dict(PLAIN, target_chord_branch_prob=0.5)}
FH = dict(PLAIN, min_chord_change_prob=0.3, max_no_chord_change_prob=0.4, min_key_change_prob=0.1,
          max_no_key_change_prob=0.7, ksm_exponent=30)


def generate(rng, tier, index):
    models = {}
    damaged = rng.choice(MODELS) if rng.random() < 0.3 else None
    for name in MODELS:
        versions = []
        health = ["ok"] if name != damaged else ["ok", "torn", "empty", "other"]
        for number in sorted(rng.sample([0, 1, 2, 3, 10], rng.choice([1, 1, 2, 3]))):
            names = rng.sample(["epoch=3.ckpt", "epoch=12.ckpt", "a.ckpt", "b.ckpt"], rng.choice([1, 1, 2]))
            versions.append([number, [[n, rng.choice(health)] for n in names]])
        if name == damaged and rng.random() < 0.15:
            versions = []
        pick = None
        if rng.random() < 0.45:
            how = rng.choice(["version", "path", "both"])
            pick = [how, rng.randrange(8), rng.randrange(4)]
        models[name] = {"versions": versions, "pick": pick, "pitch": rng.randrange(2)}
    fault = None
    if rng.random() < 0.3:
        fault = {"kind": rng.choice(["eio", "eacces", "emfile", "enoent"]), "op": rng.choice(["open_r", "read"]),
                 "path": rng.choice([".ckpt", ".json", ".ckpt"]), "at": rng.randrange(8),
                 "sticky": rng.random() < 0.3}
    settings = {}
    for name, values in SETTINGS.items():
        if rng.random() < 0.25:
            settings[name] = rng.choice(values)
    return {"models": models, "fault": fault, "settings": settings, "script": rng.randrange(2),
            "preset": rng.choice([None, None, "defaults", "fh-defaults"]),
            "icm": rng.choice(["ok"] * 18 + ["torn", "missing"]), "moved": rng.randrange(2),
            "icm_path": int(rng.random() < 0.3), "disk": rand_disk(rng)}


def watch(script, argv):
    """Run the program; report what its joint models are made of."""
    import inspect

    import pytorch_lightning as pl

    import harmonic_inference.models.joint_model as jm
    from dst import joint

    made, seen = {}, []

    def build(cls):
        if not made:
            for pitch in (0, 1):
                models = joint.sub_models({"weights": 1, "scale": 1, "pitch_based": pitch})
                made.update({type(m).__name__: m for m in models.values()})
        return made[cls.__name__]

    original = jm.HarmonicInferenceModel.__init__
    signature = inspect.signature(original)

    def init(self, *args, **kwargs):
        original(self, *args, **kwargs)
        bound = signature.bind(self, *args, **kwargs)
        bound.apply_defaults()
        given = dict(bound.arguments)
        models = {n: (type(m).__name__, getattr(m, "checkpoint_tag", None), getattr(m, "frozen", False))
                  for n, m in given.pop("models").items()}
        icm = kwargs.get("models", args[0] if args else None)["icm"]
        models["icm"] = [round(float(p), 9) for minor in (False, True)
                         for p in list(icm.get_prior(minor, log=False))[:3]]
        given.pop("self")
        seen.append((models, {k: float(v) for k, v in given.items() if v is not None}))

    pl.BUILD = build
    jm.HarmonicInferenceModel.__init__ = init
    jm.HarmonicInferenceModel.get_harmony = lambda self, piece, **forces: None
    ending = "ok"
    try:
        annot.run_script(os.path.join(annot.REPO, script), argv)
    except SystemExit as stop:
        ending = "ok" if stop.code in (None, 0) else f"exit {stop.code}"
    except Exception as error:
        ending = f"{type(error).__name__}: {error}"[:300]
    return ending, seen


def execute(ctx, plan):
    disk = ctx.path("disk")
    piece = gen.rand_piece(__import__("random").Random(5), "a", "p", 1, rich=False)
    if refpiece.from_tables(piece, piece_tables(piece), "p") is None:
        raise Invalid()
    write_corpus(os.path.join(disk, "in"), [piece])
    base = os.path.join("moved", "my ckpt") if plan["moved"] else "checkpoints"
    argv = ["-i", "in", "-o", "out"] + (["--checkpoint", base] if plan["moved"] else [])
    want, loud, csm_version = {}, None, None
    for name in MODELS:
        spec = plan["models"].get(name)
        if spec is None:
            raise Invalid()
        files = {}
        for number, entries in spec["versions"]:
            folder = os.path.join(base, name, "lightning_logs", f"version_{number}", "checkpoints")
            os.makedirs(os.path.join(disk, folder), exist_ok=True)
            for file, health in entries:
                cls = CLASSES[name]
                if name == "csm" and (number + spec["pitch"]) % 2:
                    cls = "PitchBasedChordSequenceModel"
                if health == "other":
                    cls = "SimpleKeyTransitionModel" if name != "ktm" else "SimpleKeySequenceModel"
                path = os.path.join(folder, file)
                text = json.dumps({"class": cls, "tag": path, "end": 1})
                text = "" if health == "empty" else text[: len(text) // 2] if health == "torn" else text
                with open(os.path.join(disk, path), "w") as out:
                    out.write(text)
                files[path] = (number, health, cls)
        matching = sorted(files)
        if spec["pick"]:
            how, which, where = spec["pick"]
            numbers = [v[0] for v in spec["versions"]]
            if how in ("path", "both") and matching:
                path = matching[where % len(matching)]
                argv += [f"--{name}", path]
                matching = [path]
            if how in ("version", "both") and numbers:
                number = (numbers + [7])[which % (len(numbers) + (name != "csm" and which == 7))]
                argv += [f"--{name}-version", str(number)]
                matching = sorted(p for p in files if files[p][0] == number)
                if name == "csm":
                    csm_version = number
        if len(matching) > 1:
            ctx.nontrivial = True
            ctx.probe("several_checkpoints")
        if not matching:
            loud = loud or f"no checkpoint for {name}"
            continue
        if files[matching[-1]][1] != "ok":
            loud = loud or f"{name} has a checkpoint that is {files[matching[-1]][1]}"
            ctx.probe("damaged_checkpoint")
        want[name] = (files[matching[-1]][2], matching[-1], True)
    icm = os.path.join(disk, base, "icm")
    os.makedirs(icm, exist_ok=True)
    length = sum(annot.inversions(k) for k in annot.SHORT) * 29
    flat = [1 / length] * length
    major = [2 / (length + 1)] + [1 / (length + 1)] * (length - 1)
    minor = [1 / (length + 1), 2 / (length + 1)] + [1 / (length + 1)] * (length - 2)
    path = os.path.join(icm, "initial_chord_prior.json")

    def prior_text(major, minor):
        return json.dumps({"pitch_type": "PitchType.TPC", "inversions_present": True, "reduction_present": None,
                           "major": major, "minor": minor})

    if plan["icm_path"]:
        with open(path, "w") as out:  # a good one at the usual place, which must not be taken
            out.write(prior_text(flat, flat))
        os.makedirs(os.path.join(disk, "my priors"), exist_ok=True)
        path = os.path.join(disk, "my priors", "p.json")
        argv += ["--icm-json", os.path.join("my priors", "p.json")]
        ctx.probe("own_prior")
    text = prior_text(major, minor)
    if plan["icm"] != "missing":
        with open(path, "w") as out:
            out.write(text[: len(text) // 2] if plan["icm"] == "torn" else text)
    if plan["icm"] != "ok":
        loud = loud or f"the initial-chord prior is {plan['icm']}"
    settings = dict(PLAIN)
    for name, value in plan["settings"].items():
        argv += [f"--{name}", str(value)]
        settings[name.replace("-", "_")] = value
    if plan["preset"]:
        argv.append("--" + plan["preset"])
        if csm_version is not None and csm_version not in GRID:
            loud = loud or "no defaults for this version"
        elif plan["preset"] == "defaults":
            settings = GRID[2 if csm_version is None else csm_version]
        else:
            settings = FH
    script = ["annotate.py", "test.py"][plan["script"]]
    if script == "test.py":
        argv.append("--no_h5")
    faults = []
    if plan["fault"]:
        faults = [{"kind": plan["fault"]["kind"] if plan["fault"]["op"] == "open_r" else "eio",
                   "ops": [plan["fault"]["op"]], "path": plan["fault"]["path"], "at": plan["fault"]["at"],
                   "sticky": plan["fault"]["sticky"]}]
    out = ctx.spawn(watch, script, argv, root=disk, fs=dict(plan["disk"], faults=faults))
    ctx.check(out.ok, "harness", lambda: f"{out} {out.tb}")
    ending, seen = out.value
    hit = any(out.fired.get(k) for k in ("eio", "eacces", "emfile", "enoent"))
    if hit or out.fired.get("listing_order"):
        ctx.nontrivial = True
    ctx.event("end", ending, seen)
    if loud:
        ctx.probe("must_fail")
        ctx.check(ending != "ok" and not seen, "wrong-model-used",
                  lambda: f"{loud}, but the run went on with {seen} ({' '.join(argv)})")
        return
    if ending != "ok":
        ctx.check(hit, "run-failed", lambda: f"{script} {' '.join(argv)}: {ending}")
        return
    ctx.check(len(seen) == 1, "no-model", lambda: f"{len(seen)} joint models were made")
    models, got = seen[0]
    for name, value in want.items():
        ctx.check(tuple(models[name]) == value, "wrong-checkpoint",
                  lambda: f"{name} (class, checkpoint, frozen) = {models[name]}, expected {value} "
                          f"({' '.join(argv)})")
    ctx.check(models["icm"] == [round(p, 9) for p in major[:3] + minor[:3]], "wrong-prior", lambda: f"{models['icm']}")
    for name, value in settings.items():
        ctx.check(abs(got.get(name, -1) - value) < 1e-12, "wrong-setting",
                  lambda: f"{name} = {got.get(name)}, expected {value} ({' '.join(argv)})")
