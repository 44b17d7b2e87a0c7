"""Runs, plans, shrinking and the seeded search loop.

A *plan* is a JSON value drawn from one seed; it holds every decision of one run (workload,
listing orders, schedules, faults).  Executing a plan is deterministic, so a plan file is a
replay file.
"""
import copy
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
import traceback

from dst import proc


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class Invalid(Exception):
    """The (shrunk) plan does not describe a meaningful run."""


class HarnessError(Exception):
    """The machinery, not the code under test, misbehaved."""


class Ctx:
    """Everything one run touches."""

    def __init__(self):
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.scratch = tempfile.mkdtemp(prefix="hi-dst-", dir=base)
        self.fired = {}
        self.probes = {}
        self.events = []
        self.steps = 0
        self.procs = 0
        self.nontrivial = False

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def path(self, *parts):
        return os.path.join(self.scratch, *parts)

    def spawn(self, fn, *args, root=None, fs=None, seed=0, limit=None):
        out = proc.spawn(fn, *args, root=root or self.path("disk"), fs=fs, seed=seed, limit=limit)
        self.procs += 1
        for src, dst in ((out.fired, self.fired), (out.probes, self.probes)):
            for key, value in src.items():
                dst[key] = dst.get(key, 0) + value
        self.steps += sum(out.ops.values())
        name = getattr(fn, "__name__", "proc")
        self.event(name, out.how, out.error, out.log)
        if out.escapes:
            self.event("escape", out.escapes)
        if out.how == proc.BROKEN:
            raise HarnessError(f"{name}: {out.error}")
        if out.how == proc.HUNG:
            raise Violation("no-progress", f"{name} did not finish: {out.error}")
        return out

    def event(self, *parts):
        self.events.append(parts)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, name, n=1):
        self.fired[name] = self.fired.get(name, 0) + n

    def violate(self, kind, detail):
        raise Violation(kind, detail)

    def check(self, cond, kind, detail):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    def digest(self):
        text = json.dumps(self.events, sort_keys=True, default=str)
        text = text.replace(self.scratch, "<scratch>")
        text = text.replace(os.path.realpath(self.scratch), "<scratch>")
        return hashlib.sha256(text.encode()).hexdigest()


def plan_of(module, base_seed, index, tier):
    rng = random.Random(f"{module.PROPERTY}/{base_seed}/{index}")
    return module.generate(rng, tier, index)


def execute(module, plan):
    """Run a plan.  Returns a result dict; never raises for anything the run itself does."""
    ctx = Ctx()
    result = {"violation": None, "error": None, "invalid": False}
    try:
        module.execute(ctx, copy.deepcopy(plan))
    except Violation as violation:
        result["violation"] = {
            "kind": violation.kind,
            "detail": str(violation.detail)[:4000].replace(ctx.scratch, "<scratch>"),
        }
        ctx.event("VIOLATION", violation.kind)
    except Invalid as why:
        result["invalid"] = str(why) or True
    except HarnessError as error:
        result["error"] = f"{error}\n{traceback.format_exc()[-3000:]}"
    except Exception:
        result["error"] = traceback.format_exc()[-4000:]
    finally:
        result.update(
            digest=ctx.digest(), fired=ctx.fired, probes=ctx.probes, steps=ctx.steps,
            procs=ctx.procs, nontrivial=bool(ctx.nontrivial or ctx.fired),
        )
        result["events"] = ctx.events
        ctx.close()
    return result


def isolated(module, plan):
    """execute() in a fork of its own, so that runs cannot influence each other."""
    import pickle

    read_fd, write_fd = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 70
        try:
            os.close(read_fd)
            result = execute(module, plan)
            with os.fdopen(write_fd, "wb") as pipe:
                pickle.dump(result, pipe, protocol=4)
            status = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(status)
    os.close(write_fd)
    limit = getattr(module, "RUN_LIMIT_S", 4 * proc.STEP_LIMIT_S)
    data = proc._drain(read_fd, pid, limit)
    if data is None:
        return _empty({"kind": "no-progress", "detail": f"run did not finish within {limit} s"})
    if not data:
        return _empty(None, "run process vanished")
    return pickle.loads(data)


def _empty(violation, error=None):
    return {"violation": violation, "error": error, "invalid": False, "digest": "-", "fired": {},
            "probes": {}, "steps": 0, "procs": 0, "nontrivial": False, "events": []}


# -- shrinking -----------------------------------------------------------------------------
def _candidates(node):
    """Smaller variants of a JSON value, most drastic first."""
    if isinstance(node, bool):
        if node:
            yield False
    elif isinstance(node, int):
        if node:
            yield 0
            if abs(node) > 1:
                yield node // 2
                yield node - (1 if node > 0 else -1)
    elif isinstance(node, list):
        n = len(node)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                yield node[:start] + node[start + size :]
            size //= 2
        for i, item in enumerate(node):
            for smaller in _candidates(item):
                yield node[:i] + [smaller] + node[i + 1 :]
    elif isinstance(node, dict):
        for key in sorted(node):
            if isinstance(node[key], (dict, list)) and node[key]:
                yield {**node, key: type(node[key])()}
        for key in sorted(node):
            for smaller in _candidates(node[key]):
                yield {**node, key: smaller}


def size_of(plan):
    return len(json.dumps(plan))


def shrink(module, plan, kind, budget_s, run=isolated):
    """Greedy minimisation: keep any smaller plan that still shows the same violation kind."""
    import time

    deadline = time.monotonic() + budget_s
    tried, seen = 0, set()
    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        for candidate in _candidates(plan):
            if time.monotonic() >= deadline:
                break
            key = json.dumps(candidate, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            result = run(module, candidate)
            if result["violation"] and result["violation"]["kind"] == kind:
                plan = candidate
                improved = True
                break
    return plan, tried
