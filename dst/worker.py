"""A worker process: executes runs (forked) for the batch runner."""

import dst.clock  # noqa: F401  (must come first)

import importlib
import json
import os
import random
import sys

# (DST_REPO is only used while developing the checks themselves)
REPO = os.environ.get("DST_REPO", "/repo")
sys.path.insert(0, REPO)


def load(prop: str):
    """Load the module of a property."""
    return importlib.import_module(f"dst.props.{prop.lower()}")


def make_plan(mod, seed: str, tier: str) -> dict:
    """The plan of a seed is a pure function of (seed, tier)."""
    rng = random.Random(f"plan|{seed}")
    plan = mod.gen(rng, tier)
    plan.setdefault("env_seed", rng.getrandbits(32))
    # Plans must survive a round trip through a replay file.
    return json.loads(json.dumps(plan))


def main() -> int:
    """Serve run requests from stdin."""
    from dst.sim import run_forked

    mod = load(sys.argv[1])
    import runtimepy

    assert runtimepy.__file__.startswith(f"{REPO}/"), runtimepy.__file__
    if hasattr(mod, "warmup"):
        mod.warmup()
    print("ready", flush=True)
    for line in sys.stdin:
        req = json.loads(line)
        if "plan" in req:
            plan, recorded = req["plan"], req["choices"]
        else:
            plan, recorded = make_plan(mod, req["seed"], req["tier"]), None
        out = run_forked(
            mod, plan, req["seed"], recorded, wall_s=req.get("wall", 60.0)
        )
        if out["status"] == "ok" and not req.get("full"):
            out.pop("choices", None)
        else:
            out["plan"] = plan
        if req.get("want_plan"):
            out["plan"] = plan
        out["index"] = req.get("index", 0)
        out["seed"] = req["seed"]
        print(json.dumps(out), flush=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
