#!/bin/bash
# offline setup: only checks that the tools are there (nothing is built ahead: every check extracts from /repo's current tree)
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/veriftools/pyvenv/bin/python -c 'import z3' && clang++-18 --version >/dev/null && opt-18 --version >/dev/null && g++ --version >/dev/null && echo ok
