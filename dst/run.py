"""Driver: `run.py <property> [quick|thorough]`, `run.py --replay FILE`, `run.py --determinism`.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 3: harness error.
"""
import argparse
import gc
import importlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from dst import boot  # noqa: E402

boot.boot()

from dst import kernel  # noqa: E402

HERE = boot.HERE
VERIF = boot.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")
SAMPLE_LIMIT = 6


def load_module(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def known_findings(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as handle:
        return [f for f in json.load(handle)["findings"] if f["property"] == prop]


def match_known(finding, violation):
    return (
        finding["status"] == "open"
        and finding["match"]["kind"] == violation["kind"]
        and all(text in violation["detail"] for text in finding["match"].get("contains", []))
    )


# -- workers -------------------------------------------------------------------------------
def worker(module, args, indices, fd):
    with os.fdopen(fd, "wb") as pipe:
        for index in indices:
            if time.monotonic() > args.deadline:
                break
            plan = kernel.plan_of(module, args.seed, index, args.tier)
            result = kernel.isolated(module, plan)
            events = result.pop("events")
            if args.keep_events:
                result["events"] = events
            result["index"] = index
            if result["violation"] or result["error"] or index < SAMPLE_LIMIT:
                result["plan"] = plan
            blob = pickle.dumps(result, protocol=4)
            pipe.write(len(blob).to_bytes(8, "big") + blob)
            pipe.flush()


def search(module, args, runs, jobs, on_result):
    """Distribute runs over worker processes; call on_result(result) -> True to stop."""
    fds, pids, buffers = [], [], {}
    for w in range(jobs):
        indices = range(w, runs, jobs)
        read_fd, write_fd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            status = 70
            try:
                os.setpgid(0, 0)
                for fd in fds:
                    os.close(fd)
                os.close(read_fd)
                worker(module, args, indices, write_fd)
                status = 0
            finally:
                os._exit(status)
        os.close(write_fd)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        fds.append(read_fd)
        pids.append(pid)
        buffers[read_fd] = b""
    live, stop = set(fds), False
    try:
        while live and not stop:
            ready, _, _ = select.select(list(live), [], [], 5)
            for fd in ready:
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    live.discard(fd)
                    continue
                buf = buffers[fd] + chunk
                while len(buf) >= 8:
                    size = int.from_bytes(buf[:8], "big")
                    if len(buf) < 8 + size:
                        break
                    if on_result(pickle.loads(buf[8 : 8 + size])):
                        stop = True
                    buf = buf[8 + size :]
                buffers[fd] = buf
    finally:
        # a worker that has closed its pipe is about to exit by itself: let it
        done = {}
        grace = time.monotonic() + (0 if live else 20)
        while len(done) < len(pids):
            for pid in pids:
                if pid not in done:
                    got, status = os.waitpid(pid, os.WNOHANG)
                    if got:
                        done[pid] = status
            if time.monotonic() >= grace:
                break
            time.sleep(0.01)
        for pid in pids:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        statuses = [done[pid] if pid in done else os.waitpid(pid, 0)[1] for pid in pids]
        for fd in fds:
            os.close(fd)
    return stop, statuses


# -- replay --------------------------------------------------------------------------------
def write_replay(prop, seed, index, plan, violation, digest):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}-{seed}-{index}.json")
    with open(path, "w") as out:
        json.dump(
            {"property": prop, "seed": seed, "index": index, "plan": plan,
             "violation": violation, "digest": digest},
            out, indent=1,
        )
    return path


def replay(path):
    with open(path) as handle:
        data = json.load(handle)
    module = load_module(data["property"])
    boot.preload()
    gc.disable()
    result = kernel.isolated(module, data["plan"])
    if result["error"]:
        print(result["error"])
        return 3
    for event in result["events"]:
        print("  ", " ".join(str(e) if not isinstance(e, list) else
                             f"[{len(e)} operations]" for e in event)[:300])
    got = result["violation"]
    print("recorded:", data["violation"])
    print("replayed:", got)
    print("digest", "identical" if result["digest"] == data.get("digest") else "DIFFERENT")
    if got:
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1
    return 0


# -- main ----------------------------------------------------------------------------------
def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property", nargs="?")
    parser.add_argument("tier", nargs="?", default=None)
    parser.add_argument("--replay")
    parser.add_argument("--runs", type=int)
    parser.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    parser.add_argument("--seed", type=int, default=None)
    parser.add_argument("--one", type=int, default=None, help="execute one index verbosely")
    parser.add_argument("--digests", help="write index->digest of every run to this file")
    parser.add_argument("--no-evidence", action="store_true")
    parser.add_argument("--keep-going", action="store_true")
    args = parser.parse_args()
    if args.replay:
        return replay(args.replay)

    started = time.monotonic()
    prop = args.property
    args.tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    if args.seed is None:
        args.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    args.keep_events = False
    module = load_module(prop)
    budget = module.BUDGET[args.tier]
    runs = args.runs or budget["runs"]
    wall = budget["wall_s"]
    args.deadline = started + wall
    print(f"{prop} tier={args.tier} seed={args.seed} runs={runs} jobs={args.jobs}", flush=True)
    boot.preload()
    gc.disable()
    if hasattr(module, "warm"):
        module.warm()

    if args.one is not None:
        plan = kernel.plan_of(module, args.seed, args.one, args.tier)
        print(json.dumps(plan, indent=1))
        result = kernel.execute(module, plan)
        for event in result.pop("events"):
            print("  ", event)
        print(json.dumps(result, indent=1, default=str))
        return 1 if result["violation"] else 0

    total = {"runs": 0, "invalid": 0, "steps": 0, "procs": 0, "nontrivial": 0}
    fired, probes, digests, samples = {}, {}, {}, []
    bad, errors, known_hits = [], [], {}
    findings = known_findings(prop)
    faultfree = [0]

    def on_result(result):
        total["runs"] += 1
        digests[result["index"]] = result["digest"]
        total["steps"] += result["steps"]
        total["procs"] += result["procs"]
        total["invalid"] += bool(result["invalid"])
        if not result["fired"]:
            faultfree[0] += 1
        if result["nontrivial"]:
            total["nontrivial"] += 1
        for src, dst in ((result["fired"], fired), (result["probes"], probes)):
            for key, value in src.items():
                dst[key] = dst.get(key, 0) + value
        if result["index"] < SAMPLE_LIMIT:
            samples.append({"index": result["index"], "plan": result["plan"],
                            "fired": result["fired"], "digest": result["digest"][:16]})
        if result["error"]:
            errors.append(result)
            return not args.keep_going
        if result["violation"]:
            for finding in findings:
                if match_known(finding, result["violation"]):
                    known_hits[finding["id"]] = known_hits.get(finding["id"], 0) + 1
                    return False
            bad.append(result)
            return not args.keep_going
        return False

    stopped, statuses = search(module, args, runs, args.jobs, on_result)
    search_s = time.monotonic() - started

    if args.digests:
        with open(args.digests, "w") as out:
            json.dump({str(k): v for k, v in sorted(digests.items())}, out, indent=0)

    code = 0
    if errors and not bad:
        print("HARNESS ERROR (not a violation):", errors[0]["error"])
        print(json.dumps(errors[0].get("plan"))[:2000])
        code = 3
    elif not bad and not stopped and any(s != 0 for s in statuses):
        print("HARNESS ERROR: a worker died", statuses)
        code = 3
    elif not bad and total["runs"] < min(runs, budget.get("min_runs", runs // 8 or 1)):
        print(f"HARNESS ERROR: only {total['runs']} of {runs} runs fitted into {wall} s")
        code = 3

    for finding in findings:
        if finding["status"] == "open":
            if finding["id"] in known_hits or still_fails(module, finding):
                print(f"KNOWN-FINDING: property={prop} {finding['what']}")
            else:
                print(f"note: known finding {finding['id']} was not reproduced on this tree")

    replay_path = None
    if bad:
        code = 1
        bad.sort(key=lambda r: r["index"])
        if args.keep_going:
            kinds = {}
            for r in bad:
                kinds.setdefault((r["violation"]["kind"], r["violation"]["detail"][:160]), []).append(
                    r["index"])
            for (kind, detail), idx in sorted(kinds.items(), key=lambda kv: -len(kv[1])):
                print(f"  {len(idx):4d} x {kind} e.g. index {idx[0]}: {detail}")
        first = bad[0]
        kind = first["violation"]["kind"]
        spare = max(10.0, min(budget.get("shrink_s", 25), 840 - search_s))
        spare = float(os.environ.get("VERIF_SHRINK_S", spare))
        plan, tried = kernel.shrink(module, first["plan"], kind, spare)
        final = kernel.isolated(module, plan)
        if not final["violation"]:  # never report something that does not replay
            plan, final = first["plan"], kernel.isolated(module, first["plan"])
        if final["violation"] is None:
            print("HARNESS ERROR: a violation did not replay:", first["violation"])
            return 3
        replay_path = write_replay(prop, args.seed, first["index"], plan, final["violation"],
                                   final["digest"])
        print(f"found at run {first['index']} (seed {args.seed}); plan of "
              f"{kernel.size_of(first['plan'])} bytes minimised to {kernel.size_of(plan)} bytes "
              f"in {tried} executions")
        print("violation:", final["violation"]["kind"])
        print("detail:", final["violation"]["detail"][:1500])
        print("plan:", json.dumps(plan)[:2500])
        again = subprocess.run(
            [sys.executable] + boot_flags() + [os.path.abspath(__file__), "--replay", replay_path],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        )
        text = again.stdout.decode(errors="replace")
        print("fresh-process replay:",
              "reproduced, " + [ln for ln in text.splitlines() if ln.startswith("digest")][0]
              if again.returncode == 1 and "digest" in text else
              f"NOT reproduced (exit {again.returncode}) {text[-500:]}")

    wall_s = time.monotonic() - started
    if not args.no_evidence:
        write_evidence(module, args, total, fired, probes, digests, samples, bad, known_hits,
                       wall_s, search_s, faultfree[0], runs)
    print(f"{total['runs']} runs ({total['runs'] / max(search_s, 1e-9) * 3600:.0f}/h), "
          f"{total['procs']} simulated processes, {total['steps']} simulated I/O steps, "
          f"{len(set(digests.values()))} distinct executions, faults fired: "
          f"{json.dumps(fired, sort_keys=True)}, probes: {json.dumps(probes, sort_keys=True)}, "
          f"{wall_s:.1f} s")
    if bad:
        print(f"VIOLATION property={prop} replay={replay_path}")
    return code


def boot_flags():
    return ["--jit", "off"] if "PyPy" in sys.version else []


def still_fails(module, finding):
    plan = finding.get("plan")
    if plan is None:
        return False
    result = kernel.isolated(module, plan)
    return bool(result["violation"]) and match_known(finding, result["violation"])


def write_evidence(module, args, total, fired, probes, digests, samples, bad, known_hits, wall_s,
                   search_s, faultfree, runs):
    folder = os.path.join(VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    distinct = len(set(digests.values()))
    data = {
        "property": module.PROPERTY,
        "tier": args.tier,
        "seed": args.seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": min(distinct, total["nontrivial"]),
            "rule": module.RULE,
            "samples": samples,
            "runs_planned": runs,
            "runs_per_hour": round(total["runs"] / max(search_s, 1e-9) * 3600),
            "seeds_per_hour": round(total["runs"] / max(search_s, 1e-9) * 3600),
            "simulated_processes": total["procs"],
            "simulated_io_steps": total["steps"],
            "simulated_time": "the code under test has no clock; simulated time is counted in "
                              "simulated I/O and scheduling steps",
            "distinct_executions": distinct,
            "distinct_measure": "sha256 of the full event log of a run (every I/O operation of "
                                "every simulated process, every scheduling decision and outcome)",
            "fault_kinds_fired": fired,
            "runs_without_any_fault": faultfree,
            "probes": probes,
            "invalid_plans": total["invalid"],
            "known_findings_hit": known_hits,
            "real_components": module.REAL,
            "stub_components": module.STUBS,
        },
        "assumptions": module.ASSUMPTIONS,
        "wall_s": round(wall_s, 2),
        "violations": len(bad),
    }
    with open(os.path.join(folder, f"{module.PROPERTY}.json"), "w") as out:
        json.dump(data, out, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
