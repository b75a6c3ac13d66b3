"""Command line: check, replay, one, selftest."""

import argparse
import json
import os
from pathlib import Path
import sys

from dst import batch


def main() -> int:
    """Entry."""
    parser = argparse.ArgumentParser()
    sub = parser.add_subparsers(dest="cmd", required=True)
    chk = sub.add_parser("check")
    chk.add_argument("prop")
    chk.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    chk.add_argument(
        "--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))
    )
    chk.add_argument("--runs", type=int, default=0)
    chk.add_argument("--workers", type=int, default=0)
    rep = sub.add_parser("replay")
    rep.add_argument("path")
    rep.add_argument("-v", action="count", default=0)
    one = sub.add_parser("one")
    one.add_argument("prop")
    one.add_argument("seed")
    one.add_argument("--tier", default="quick")
    one.add_argument("-v", action="count", default=0)
    tst = sub.add_parser("selftest")
    tst.add_argument("prop")
    tst.add_argument("--runs", type=int, default=200)
    tst.add_argument("--seed", type=int, default=7)
    args = parser.parse_args()

    if args.cmd == "check":
        return batch.run_check(
            args.prop, args.tier, args.seed, workers=args.workers,
            runs=args.runs,
        )

    if args.cmd == "replay":
        if args.v:
            data = json.loads(Path(args.path).read_text())
            return verbose(data["property"], data["plan"], data["seed"],
                           data["choices"], args.v)
        res = batch.replay_file(Path(args.path))
        print(res["status"], res["cls"], res["msg"])
        return 1 if res["status"] == "violation" else (
            0 if res["status"] == "ok" else 2
        )

    if args.cmd == "one":
        return verbose(args.prop, None, args.seed, None, args.v,
                       tier=args.tier)

    return selftest(args.prop, args.runs, args.seed)


def verbose(prop, plan, seed, choices, level, tier="quick") -> int:
    """Run once in this process' child with logging."""
    from dst import worker
    from dst.sim import run_forked

    mod = worker.load(prop)
    if plan is None:
        plan = worker.make_plan(mod, seed, tier)
    if level:
        print(json.dumps(plan, indent=1))
    out = run_forked(mod, plan, seed, choices, verbose=level)
    out["choices"] = dict(list(out["choices"].items())[:40])
    print(json.dumps(out, indent=1)[:6000])
    print(out["msg"])
    return 1 if out["status"] == "violation" else 0


def selftest(prop: str, runs: int, seed: int) -> int:
    """Determinism: worker counts, hash seeds, fresh processes, replay."""
    logs = {}
    reqs = [
        {"index": i, "seed": f"{prop}:{seed}:{i}", "tier": "quick",
         "full": 1}
        for i in range(runs)
    ]
    bad = 0
    keep = {}
    for size, hashseed, order in ((8, "0", 1), (3, "12345", -1),
                                  (5, "random", 1)):
        pool = batch.Pool(prop, size, hashseed)
        for res in pool.map(reqs[::order]):
            key = res["index"]
            val = (res["status"], res["cls"], res["trace"])
            if key in logs and logs[key] != val:
                bad += 1
                print("diverged", res["seed"], hashseed, logs[key], val)
            logs[key] = val
            keep[key] = res
        pool.close()
    # Replay of recorded decisions must equal the search run.
    pool = batch.Pool(prop, 8)
    reqs = [
        {"index": i, "seed": "other", "plan": r["plan"],
         "choices": r["choices"], "full": 1}
        for i, r in keep.items()
    ]
    for res in pool.map(reqs):
        val = (res["status"], res["cls"], res["trace"])
        if logs[res["index"]] != val:
            bad += 1
            print("replay diverged", res["index"], logs[res["index"]], val)
    pool.close()
    status = {}
    for val in logs.values():
        status[val[:2]] = status.get(val[:2], 0) + 1
    print(prop, "runs", runs, "divergent", bad, status)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.path.insert(0, str(batch.VERIF))
    import dst.clock  # noqa: F401
    sys.exit(main())
