#!/bin/sh
# Nothing to build: checks the interpreter and that the package imports from /repo/src.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 python3-vt -c "
import sys; sys.path.insert(0, '.')
from vt import engine, sut
import props.all
print(len(engine.REGISTRY), 'checks,', 'hypothesis:', sut.HYPOTHESIS_ERROR or 'ok,', sut.package.__file__)
"
