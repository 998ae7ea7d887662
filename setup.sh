#!/bin/bash
# Checks that the toolchain is there and that driver and specifications are well-formed.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out/replay
python3 tools/setup.py
