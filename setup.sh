#!/bin/sh
# builds the harness crates once, so that the checks only rebuild what changed
cd "$(dirname "$0")" || exit 1
exec python3 setup.py
