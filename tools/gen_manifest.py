"""Writes MANIFEST.json from properties.jsonl and dst/budget.json."""

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent

NOT_APPLICABLE = {
    "C23": "Encoding and decoding are pure functions of the value: no "
    "schedule, clock, I/O, fault or second party influences them, so there "
    "is nothing for a simulator to decide.",
    "C24": "Export and import are a pure function of the environment; the "
    "only I/O is one file written and read back in sequence, with no "
    "schedule, timing or fault the statement quantifies over.",
}

NOTE = (
    "Seeded search: a clean batch is evidence over the sampled schedules and "
    "fault sequences, not proof. Trusts the simulator's model of the kernel "
    "(TCP, UDP, pipes, clock, thread pool), the workload generator and the "
    "oracle in dst/props/{low}.py; TLS, uvloop and the operating system are "
    "not exercised."
)


def main() -> None:
    """Entry."""
    budget = json.loads((ROOT / "dst" / "budget.json").read_text())
    checks, missing = [], []
    for line in (ROOT / "properties.jsonl").read_text().splitlines():
        prop = json.loads(line)
        ident = prop["id"]
        low = ident.lower()
        if ident in NOT_APPLICABLE:
            missing.append(
                {"property": ident, "reason": NOT_APPLICABLE[ident]}
            )
        elif (ROOT / "dst" / "props" / f"{low}.py").is_file():
            checks.append(
                {
                    "property": ident,
                    "quick_cmd": f"./vp check {ident} --tier quick",
                    "thorough_cmd": f"./vp check {ident} --tier thorough",
                    "technique": "deterministic simulation with fault "
                    "injection: seeded random search over schedules and "
                    "faults in a virtual-time event loop, checked against "
                    + budget.get(ident, {}).get("oracle", "a reference model"),
                    "level": "exploration",
                    "level_note": NOTE.format(low=low),
                }
            )
        else:
            missing.append(
                {
                    "property": ident,
                    "reason": "The check for this property isn't built yet.",
                }
            )
    data = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "hooks": {
            "guard": "none",
            "enable": "No hooks in /repo: every seam is an event-loop method, "
            "a constructor argument or a standard-library function replaced "
            "inside the simulating process.",
            "source_commits": [],
        },
        "not_applicable": missing,
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(data, indent=1) + "\n")
    print(len(checks), "checks;", len(missing), "not applicable")


if __name__ == "__main__":
    main()
