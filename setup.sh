#!/bin/bash
# nothing to build: checks that the interpreter, the project's dependencies and the solver are usable
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(pwd)" /opt/venv/bin/python -c "
from symx import z3load
import numpy, pandas, networkx
print('ready')"
