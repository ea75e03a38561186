#!/bin/bash
# Builds the extractor once, to show that the tools are there. Every check builds what it needs by itself when absent.
cd "$(dirname "$0")" || exit 1
PY=$(command -v python3-vt || echo /opt/veriftools/pyvenv/bin/python3)
mkdir -p build evidence
"$PY" -c 'import sys; sys.path.insert(0, "dcv"); import check; print(check.extractor())'
