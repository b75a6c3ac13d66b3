"""
The batch runner: seeded search over many runs, known-finding handling,
minimisation, replay and evidence.
"""

import copy
import json
import os
from pathlib import Path
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = Path(__file__).resolve().parent.parent
PYTHON = "/opt/venv/bin/python"
EVIDENCE = VERIF / "evidence"
REPLAYS = VERIF / "replays"
KNOWN = VERIF / "known_findings.json"


class Worker:
    """One worker subprocess."""

    def __init__(self, prop: str, pyc: str, hashseed: str = "0") -> None:
        env = {
            "PATH": "/usr/bin:/bin",
            "HOME": os.environ.get("HOME", "/root"),
            "LANG": "C.UTF-8",
            "PYTHONHASHSEED": hashseed,
            "PYTHONPATH": str(VERIF),
            "PYTHONPYCACHEPREFIX": pyc,
            "PYTHONWARNINGS": "ignore",
        }
        if "DST_REPO" in os.environ:
            env["DST_REPO"] = os.environ["DST_REPO"]
        self.proc = subprocess.Popen(
            [PYTHON, "-m", "dst.worker", prop],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            cwd="/tmp",
            env=env,
            text=True,
        )
        self.err: list[str] = []
        threading.Thread(target=self._drain, daemon=True).start()

    def _drain(self) -> None:
        for line in self.proc.stderr:
            self.err.append(line)
            del self.err[:-80]

    def wait_ready(self) -> bool:
        return self.proc.stdout.readline().strip() == "ready"

    def call(self, req: dict) -> dict:
        self.proc.stdin.write(json.dumps(req) + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise RuntimeError("worker died: " + "".join(self.err[-30:]))
        return json.loads(line)

    def stop(self) -> None:
        try:
            self.proc.stdin.close()
            self.proc.wait(timeout=5)
        except Exception:  # pylint: disable=broad-except
            self.proc.kill()
            self.proc.wait()


class Pool:
    """A pool of workers."""

    def __init__(self, prop: str, size: int, hashseed: str = "0") -> None:
        self.pyc = tempfile.mkdtemp(prefix="dst-pyc-")
        self.workers = []
        # The first worker byte-compiles the current tree for the others.
        first = Worker(prop, self.pyc, hashseed)
        self.ok = first.wait_ready()
        if not self.ok:
            first.proc.wait(timeout=10)
            time.sleep(0.2)
            self.error = "".join(first.err[-40:])
            return
        self.error = ""
        self.workers = [first] + [
            Worker(prop, self.pyc, hashseed) for _ in range(size - 1)
        ]
        for worker in self.workers[1:]:
            assert worker.wait_ready()

    def map(self, reqs, deadline=None, stop_after=None):
        """Run requests; yields results in completion order."""
        todo: queue.Queue = queue.Queue()
        for req in reqs:
            todo.put(req)
        done: queue.Queue = queue.Queue()
        stop = threading.Event()

        def serve(worker: Worker) -> None:
            try:
                while not stop.is_set():
                    if deadline is not None and time.monotonic() > deadline:
                        break
                    try:
                        req = todo.get_nowait()
                    except queue.Empty:
                        break
                    done.put(worker.call(req))
            except BaseException as exc:  # pylint: disable=broad-except
                done.put({"status": "harness_error", "cls": "worker",
                          "msg": repr(exc), "index": -1, "seed": ""})
            finally:
                done.put(None)

        threads = [
            threading.Thread(target=serve, args=(w,), daemon=True)
            for w in self.workers
        ]
        for thread in threads:
            thread.start()
        alive = len(threads)
        try:
            while alive:
                item = done.get()
                if item is None:
                    alive -= 1
                    continue
                yield item
                if stop_after is not None and stop_after(item):
                    stop.set()
        finally:
            stop.set()
            for thread in threads:
                thread.join(timeout=120)

    def close(self) -> None:
        for worker in self.workers:
            worker.stop()
        shutil.rmtree(self.pyc, ignore_errors=True)


# -- minimisation -------------------------------------------------------------

def _ddmin(items: list, test, budget) -> list:
    """Classic delta debugging on a list."""
    n = 2
    if items and not budget.done() and test([]):
        return []
    while len(items) >= 2 and not budget.done():
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        reduced = False
        for i in range(len(chunks)):
            if budget.done():
                break
            cand = [x for j, c in enumerate(chunks) if j != i for x in c]
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                reduced = True
                break
        if not reduced:
            if n >= len(items):
                break
            n = min(len(items), n * 2)
    return items


class Budget:
    """A bounded number of attempts and seconds."""

    def __init__(self, tries: int, secs: float) -> None:
        self.tries = tries
        self.end = time.monotonic() + secs

    def done(self) -> bool:
        return self.tries <= 0 or time.monotonic() > self.end


def minimise(worker: Worker, plan: dict, choices: dict, seed: str, cls: str,
             budget: Budget) -> tuple[dict, dict]:
    """Shrink a failing (plan, choices) while the same class persists."""

    def fails(cand_plan, cand_choices) -> bool:
        budget.tries -= 1
        res = worker.call(
            {"plan": cand_plan, "choices": cand_choices, "seed": seed,
             "full": 1}
        )
        return res["status"] == "violation" and res["cls"] == cls

    best_plan, best = copy.deepcopy(plan), dict(choices)

    for _ in range(2):
        before = json.dumps([best_plan, best], sort_keys=True)

        # The operations.
        for key in [k for k in best_plan if k.startswith("ops")]:
            def test_ops(items, key=key):
                return fails({**best_plan, key: items}, best)

            best_plan[key] = _ddmin(list(best_plan[key]), test_ops, budget)

        # The configuration of the faults.
        for group in ("net", "loop", "faults"):
            for key in sorted(best_plan.get(group, {})):
                if budget.done():
                    break
                if key.startswith("max_"):
                    continue
                cand = copy.deepcopy(best_plan)
                del cand[group][key]
                if fails(cand, best):
                    best_plan = cand

        # The decisions.
        items = _ddmin(
            sorted(best.items()),
            lambda sub: fails(best_plan, dict(sub)),
            budget,
        )
        best = dict(items)

        # Numbers inside operations.
        for key in [k for k in best_plan if k.startswith("ops")]:
            for i, oper in enumerate(best_plan[key]):
                if not isinstance(oper, dict):
                    continue
                for name, val in sorted(oper.items()):
                    if isinstance(val, bool) or not isinstance(val, int):
                        continue
                    for cand_val in (0, 1, val // 2, val - 1):
                        if (
                            budget.done()
                            or cand_val < 0
                            or cand_val >= oper[name]
                        ):
                            continue
                        cand = copy.deepcopy(best_plan)
                        cand[key][i][name] = cand_val
                        if fails(cand, best):
                            best_plan = cand
                            oper = best_plan[key][i]
                            break
        if before == json.dumps([best_plan, best], sort_keys=True):
            break
    return best_plan, best


# -- known findings -----------------------------------------------------------

def known_findings(prop: str) -> list[dict]:
    """Findings recorded (not repaired) for a property."""
    if not KNOWN.is_file():
        return []
    data = json.loads(KNOWN.read_text())
    return [
        f for f in data.get("findings", []) if f["property"] == prop
    ]


# -- a check --------------------------------------------------------------------

def run_check(prop: str, tier: str, base_seed: int, workers: int = 0,
              runs: int = 0) -> int:
    """Run one property's check. Returns the process exit code."""

    sys.path.insert(0, str(VERIF))
    start = time.monotonic()
    meta = json.loads((VERIF / "dst" / "budget.json").read_text())
    conf = {**meta["default"], **meta.get(prop, {})}
    runs = runs or conf[tier]
    cap = conf[f"{tier}_wall"]
    workers = workers or min(8, os.cpu_count() or 1)

    pool = Pool(prop, workers)
    if not pool.ok:
        print(f"harness error: worker didn't start:\n{pool.error}",
              file=sys.stderr)
        pool.close()
        return 2

    known = known_findings(prop)
    known_cls = {f["cls"]: f for f in known}

    reqs = [
        {"index": i, "seed": f"{prop}:{base_seed}:{i}", "tier": tier,
         "want_plan": i < 3}
        for i in range(runs)
    ]
    results, violations, harness, known_hits = [], [], [], {}

    def failing(item) -> bool:
        return item["status"] == "violation" and item["cls"] not in known_cls

    try:
        hits = 0
        for item in pool.map(
            reqs,
            deadline=start + cap,
            stop_after=lambda it: failing(it) and len(violations) >= 4,
        ):
            if item["status"] == "violation":
                if item["cls"] in known_cls:
                    known_hits[item["cls"]] = (
                        known_hits.get(item["cls"], 0) + 1
                    )
                else:
                    violations.append(item)
            elif item["status"] == "harness_error":
                harness.append(item)
            results.append(item)
        del hits
        search_s = time.monotonic() - start

        # Determinism: repeat a sample of the runs, compare event logs.
        sample = [r for r in results if r["index"] >= 0]
        sample.sort(key=lambda r: r["index"])
        sample = sample[:: max(1, len(sample) // 16)][:16]
        divergent = []
        by_index = {r["index"]: r for r in sample}
        if not violations:
            for item in pool.map(
                [{"index": r["index"], "seed": r["seed"], "tier": tier}
                 for r in reversed(sample)]
            ):
                if (
                    item["index"] in by_index
                    and item["trace"] != by_index[item["index"]]["trace"]
                ):
                    divergent.append(item["seed"])

        # Findings: re-run the recorded history of each.
        for find in known:
            replay = json.loads((VERIF / find["replay"]).read_text())
            res = pool.workers[0].call(
                {"plan": replay["plan"], "choices": replay["choices"],
                 "seed": replay["seed"], "full": 1}
            )
            if res["status"] == "violation" and res["cls"] == find["cls"]:
                print(f"KNOWN-FINDING: property={prop} {find['what']}")

        code = 0
        replay_path = None
        if violations:
            code, replay_path = report(pool, prop, tier, violations)
        if harness and code == 0:
            print("harness errors:", len(harness), file=sys.stderr)
            print(harness[0].get("seed"), harness[0]["msg"],
                  file=sys.stderr)
            code = 2
        if not results and code == 0:
            code = 2
    finally:
        pool.close()

    evidence(
        prop, tier, base_seed, results, violations, known_hits, divergent,
        time.monotonic() - start, search_s, runs, workers, replay_path,
    )
    return code


def report(pool: Pool, prop: str, tier: str, violations: list):
    """Minimise, write the replay file and verify it in a fresh process."""

    violations.sort(key=lambda r: r["index"])
    REPLAYS.mkdir(exist_ok=True)
    for vio in violations[:3]:
        wall = vio["cls"] == "wall-hang"
        budget = Budget(4 if wall else 400, 30.0 if wall else 75.0)
        worker = pool.workers[0]
        plan, choices = vio["plan"], vio.get("choices", {})
        again = worker.call(
            {"plan": plan, "choices": choices, "seed": vio["seed"], "full": 1}
        )
        if again["status"] != "violation" or again["cls"] != vio["cls"]:
            # A hang of the interpreter has no recorded decisions.
            again = worker.call(
                {"seed": vio["seed"], "tier": tier, "full": 1}
            )
            if again["status"] != "violation" or again["cls"] != vio["cls"]:
                print(f"not reproducible: {vio['seed']} {vio['cls']}",
                      file=sys.stderr)
                continue
            choices = None
        if choices is not None and not wall:
            plan, choices = minimise(
                worker, plan, choices, vio["seed"], vio["cls"], budget
            )
        path = REPLAYS / f"{prop}-{vio['seed'].replace(':', '-')}.json"
        data = {
            "property": prop,
            "seed": vio["seed"],
            "tier": tier,
            "cls": vio["cls"],
            "plan": plan,
            "choices": choices,
        }
        path.write_text(json.dumps(data, indent=1, sort_keys=True) + "\n")
        res = replay_file(path)
        if res["status"] != "violation" or res["cls"] != vio["cls"]:
            print(f"replay diverged: {path}", file=sys.stderr)
            continue
        data["message"] = res["msg"]
        path.write_text(json.dumps(data, indent=1, sort_keys=True) + "\n")
        print(f"{prop} [{res['cls']}] {res['msg']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1, path
    return 2, None


def replay_file(path: Path) -> dict:
    """Replay a file in a fresh process."""
    data = json.loads(Path(path).read_text())
    pyc = tempfile.mkdtemp(prefix="dst-pyc-")
    worker = Worker(data["property"], pyc)
    try:
        if not worker.wait_ready():
            return {"status": "harness_error", "cls": "start", "msg":
                    "".join(worker.err)}
        req = {"seed": data["seed"], "full": 1}
        if data["choices"] is None:
            req["tier"] = data["tier"]
        else:
            req.update(plan=data["plan"], choices=data["choices"])
        return worker.call(req)
    finally:
        worker.stop()
        shutil.rmtree(pyc, ignore_errors=True)


def evidence(prop, tier, base_seed, results, violations, known_hits,
             divergent, wall, search_s, planned, workers, replay) -> None:
    """Write the evidence file from what this run measured."""

    faults: dict = {}
    probes: dict = {}
    net: dict = {}
    for res in results:
        for tgt, key in ((faults, "faults"), (probes, "probes"),
                         (net, "net")):
            for name, val in res.get(key, {}).items():
                tgt[name] = tgt.get(name, 0) + val
    real = [r for r in results if r["index"] >= 0]
    traces = {r["trace"] for r in real if r.get("nontrivial")}
    sigs = {r["sig"] for r in real}
    sim_s = sum(r.get("sim_s", 0.0) for r in real)
    info = json.loads((VERIF / "dst" / "budget.json").read_text())
    conf = {**info["default"], **info.get(prop, {})}
    samples = [
        {
            "seed": r["seed"],
            "plan": _trim(r.get("plan")),
            "status": r["status"],
            "steps": r.get("steps"),
            "simulated_s": round(r.get("sim_s", 0.0), 6),
            "events": r.get("events"),
            "faults": r.get("faults"),
            "trace": r.get("trace"),
        }
        for r in sorted(real, key=lambda r: r["index"])
        if "plan" in r
    ][:3]
    data = {
        "property": prop,
        "tier": tier,
        "seed": base_seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(real),
            "distinct_nontrivial": len(traces),
            "rule": conf["rule"],
            "samples": samples,
            "planned_runs": planned,
            "runs_per_hour": round(len(real) / max(search_s, 1e-9) * 3600),
            "simulated_seconds": round(sim_s, 3),
            "scheduler_steps": sum(r.get("steps", 0) for r in real),
            "decisions": sum(r.get("decisions", 0) for r in real),
            "recorded_events": sum(r.get("events", 0) for r in real),
            "faults_fired": faults,
            "probes": probes,
            "network": net,
            "distinct_interleavings": len(sigs),
            "interleaving_measure": (
                "hash of the ordered log of scheduler-visible events "
                "(kind and endpoint, without times and payloads)"
            ),
            "replay_sample_divergent": len(divergent),
            "known_finding_hits": known_hits,
            "real_components": conf["real"],
            "stubbed_components": conf["stub"],
            "workers": workers,
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }
    if replay is not None:
        data["coverage"]["replay"] = str(replay)
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(data, indent=1) + "\n")


def _trim(plan, limit: int = 2500):
    text = json.dumps(plan)
    return plan if len(text) <= limit else text[:limit] + "..."
