#!/bin/bash
# Nothing to build: checks the interpreter and the simulator's determinism on
# a handful of runs.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
test -x /opt/venv/bin/python || { echo "no /opt/venv/bin/python"; exit 1; }
./vp selftest C01 --runs 10
