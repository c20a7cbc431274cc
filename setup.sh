#!/bin/bash
# Nothing to build: the checks import the library from /repo/src. This only shows that they can.
cd "$(dirname "$(realpath "$0")")" || exit 1
mkdir -p evidence replays
scratch=$(mktemp -d) || exit 1
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH="/repo/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$scratch"
cp -r /opt/vp/mplconfig/. "$scratch/" 2>/dev/null
/opt/venv/bin/python - <<'P'
import pathlib, sys
for f in sorted([*pathlib.Path("lib").rglob("*.py"), *pathlib.Path("checks").glob("*.py"), pathlib.Path("run.py")]):
    compile(f.read_bytes(), str(f), "exec", dont_inherit=True)
import chainconsumer
print("library:", chainconsumer.__file__)
P
