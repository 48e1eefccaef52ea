#!/bin/sh
# nothing to compile: check that the interpreter and the library under test can be imported
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '/repo')
import pymnet, networkx, numpy
print('pymnet from', pymnet.__file__)"
