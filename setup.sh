#!/bin/bash
# Build the simulation copy of the package once; every check rebuilds it when /repo has changed.
cd "$(dirname "$0")" || exit 3
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python sim/build.py
