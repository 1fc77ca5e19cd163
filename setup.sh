#!/bin/bash
# The framework is plain Python: only check that the interpreter and the libraries are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import qiskit, qiskit.providers.aer, numpy, scipy, networkx, docplex, cplex, cvxpy; print('ready')"
