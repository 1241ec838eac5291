#!/bin/bash
# unpacks the property-testing library (offline wheels) and checks that the code under test imports
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR="$(mktemp -d)"
/opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, 'harness'); import main; main.ensure_deps(); import hypothesis; print('hypothesis', hypothesis.__version__)"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
