#!/bin/bash
# builds the engine (vpsym) and its runtime bitcode from the committed files
cd "$(dirname "$0")" && exec python3 -c 'import sys, run; sys.exit(0 if run.ensure_engine() else 1)'
