#!/bin/bash
# nothing to build: checks interpret /repo's current source; just confirm the solver and the interpreter are there
cd "$(dirname "$0")" && mkdir -p evidence replays && /opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, numpy; print('z3', z3.get_version_string(), 'numpy', numpy.__version__)"
