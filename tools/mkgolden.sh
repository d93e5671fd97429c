#!/bin/bash
# record the validated release from the current tree (run by hand after a repair changed the results)
cd "$(dirname "$0")/.." && PYTHONPATH=lib:checks python3-vt checks/c_golden.py && PYTHONPATH=lib:checks python3-vt -c "import c_cgm; c_cgm.record()" && PYTHONPATH=lib:checks python3-vt -c "import c_kernels; c_kernels.record()"
