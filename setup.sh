#!/bin/bash
# Builds the program exporter once; every check also builds it on demand.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
python3 -c 'import sys; sys.dont_write_bytecode=True; sys.path.insert(0,"engine"); import front; print(front.exporter())'
