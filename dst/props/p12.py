"""P12: the average over a log is the average of the accuracies it records completely."""
import os
import random
import re
from fractions import Fraction

from dst import annot, gen
from dst.boot import REPO
from dst.common import ASSUME_DISK, ASSUME_PY, STUB_DISK, STUB_H5, STUB_TORCH, rand_disk
from dst.kernel import Invalid
from dst.proc import CRASHED, probe, run_script
from dst.props.p10 import order_of, references, write_input

PROPERTY = "P12"
BUDGET = {
    "quick": {"runs": 130, "wall_s": 420},
    "thorough": {"runs": 6000, "wall_s": 3300},
}
RULE = (
    "one run = test.py writes its log while evaluating 1-3 generated pieces and is killed at a seeded write "
    "(or not at all); then 'test.py --average' and average_results are given that log, copies of it cut at 12 "
    "seeded bytes, and two logs joined, through a disk with short reads; non-trivial = the writer was killed or a cut "
    "fell inside a line"
)
REAL = ["test.py", "average_results", "logging to a file", "evaluate_*"]
STUBS = [STUB_DISK, STUB_TORCH, STUB_H5, "decoder: scripted answers"]
ASSUMPTIONS = [ASSUME_DISK, ASSUME_PY]
LINE = re.compile(r"^(.*accuracy.*?) = (\S+)$")
MEASURES = 8


def generate(rng, tier, index):
    pieces = [gen.rand_piece(rng, "a", rng.choice(["p", "p", "op = ", "x = y = "]) + str(i), 3)
              for i in range(rng.choice([1, 2, 3]))]
    fault = None
    if rng.random() < 0.7:
        fault = {"kind": rng.choice(["crash", "torn", "torn"]), "at": rng.randrange(1 << 12),
                 "keep": rng.randrange(1 << 12)}
    return {"xml": False, "pieces": pieces, "answers": rng.randrange(1 << 16), "fault": fault,
            "verbose": rng.random() < 0.4, "cuts": [rng.randrange(1 << 16) for _ in range(12)],
            "disk": rand_disk(rng, short=0.4)}


def averages(paths):
    """What the code says about each log: by calling it, and by running the program."""
    import sys

    from harmonic_inference.utils.eval_utils import average_results

    out = []
    for path in paths:
        try:
            got = {k: float(v) for k, v in average_results(path).items()}
        except Exception as error:
            got = f"{type(error).__name__}: {error}"[:300]
        out.append(got)
    printed = len("".join(sys.stdout.parts))
    try:
        run_script(os.path.join(REPO, "test.py"), ["--average", paths[0]])
    except SystemExit as stop:
        if stop.code not in (None, 0):
            return out, f"exit {stop.code}"
    return out, "".join(sys.stdout.parts)[printed:]


def reference(data):
    """{measure: exact average} over the lines which are there completely."""
    values = {}
    text = data.decode("utf-8", "replace")
    for line in text[: text.rfind("\n") + 1].split("\n"):
        match = LINE.match(line)
        if match:
            values.setdefault(match.group(1).strip(), []).append(Fraction(match.group(2)))
    return {k: sum(v) / len(v) for k, v in values.items()}


def same(got, want):
    return isinstance(got, dict) and set(got) == set(want) and \
        all(abs(got[k] - float(want[k])) < 1e-9 for k in want)


def execute(ctx, plan):
    pieces = order_of(plan)
    if not pieces or len({p["name"] for p in pieces}) < len(pieces):
        raise Invalid()
    refs = references(plan)
    if any(None in annot.per_note(ref)[0] for ref in refs):
        raise Invalid()
    disk = ctx.path("disk")
    write_input(disk, plan)
    answers, estimates = {}, []
    for ref in refs:
        asked = annot.question(ref["notes"], {})
        estimates.append(annot.estimate(random.Random(f"{plan['answers']}/{asked}"), ref))
        answers[asked] = annot.encode(estimates[-1])
    argv = ["-i", "in", "-o", "out", "--checkpoint", "ckpt", "--no_h5", "-l", "run.log"]
    if plan["verbose"]:
        argv.append("-v")
    faults = []
    if plan["fault"]:
        lines = 6 + len(pieces) * 12
        faults = [dict(plan["fault"], ops=["write"], path="run.log", at=plan["fault"]["at"] % lines)]
    out = ctx.spawn(annot.run, "test.py", argv, answers, root=disk, fs=dict(plan["disk"], faults=faults))
    ctx.check(out.ok or out.how == CRASHED, "evaluation-failed", lambda: f"{out} {out.tb}")
    path = os.path.join(disk, "out", "run.log")
    if not os.path.exists(path):
        raise Invalid()
    with open(path, "rb") as handle:
        data = handle.read()
    if out.how == CRASHED:
        ctx.probe("killed_while_logging")
        ctx.nontrivial = True
    else:  # the complete log: averages of the true accuracies
        want = {}
        for ref, estimate in zip(refs, estimates):
            for name, value in (annot.accuracies(ref, estimate) if estimate else {}).items():
                want.setdefault(name, []).append(value)
        said = reference(data)
        plain = {key.split(":")[-1]: value for key, value in said.items()}
        ctx.check(set(plain) == set(want) and all(
            abs(plain[k] - sum(v) / len(v)) < 1e-9 for k, v in want.items()), "log-without-the-accuracies",
            lambda: f"the log gives {plain}")
    contents = [data]
    values = [m.start(1) for m in re.finditer(rb"accuracy[^=\n]* = (\S)", data)]
    for cut in plan["cuts"]:
        if cut % 2 and values:  # inside a number
            cut = values[cut // 2 % len(values)] + cut // 64 % 9
        cut %= len(data) + 1
        contents.append(data[:cut])
        if cut and data[cut - 1: cut] != b"\n":
            ctx.nontrivial = True
            if LINE.match(data[data.rfind(b"\n", 0, cut) + 1: cut].decode("utf-8", "replace")):
                ctx.probe("cut_inside_a_value")
    contents.append(data[: data.rfind(b"\n") + 1] + data)
    paths = []
    for i, content in enumerate(contents):
        paths.append(f"log{i}.txt")
        with open(os.path.join(disk, paths[-1]), "wb") as handle:
            handle.write(content)
    out = ctx.spawn(averages, paths, root=disk, fs=dict(plan["disk"], faults=[]))
    ctx.check(out.ok, "average-failed", lambda: f"{out} {out.tb}")
    got, printed = out.value
    for i, (value, content) in enumerate(zip(got, contents)):
        want = reference(content)
        ctx.check(same(value, want), "wrong-average",
                  lambda: f"log cut to {len(content)} of {len(data)} bytes (ends "
                          f"{content[-40:]!r}): {value}, expected { {k: float(v) for k, v in want.items()} }")
    said = dict(re.findall(r"Average (.*) = (\S+)", printed))
    want = reference(data)
    ctx.check(same({k: float(v) for k, v in said.items()}, want), "wrong-average-printed",
              lambda: f"printed {printed!r}, expected { {k: float(v) for k, v in want.items()} }")
