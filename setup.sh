#!/bin/sh
# nothing to install: checks build what they need from /repo on every run
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
command -v verus >/dev/null && command -v clang++ >/dev/null && command -v g++ >/dev/null && python3 -m py_compile check.py vx/*.py
