#!/bin/bash
# Compiles the harness once, which shows early whether it fits to /repo. The checks build what
# they need on their own.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
./check.py --build
exit 0
