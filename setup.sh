#!/bin/bash
# Builds the monitors in every configuration once, so that a broken toolchain shows
# before any check runs and the checks only rebuild what a change of /repo affects.
set -e
cd "$(dirname "$0")"
python3 check.py --build native asan tsan miri
