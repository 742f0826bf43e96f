#!/bin/bash
# Builds the symbolic execution plugin and runtime; checks rebuild whatever is missing or changed.
set -e
cd "$(dirname "$0")"
python3 check.py --setup
