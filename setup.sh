#!/bin/sh
# nothing to build: the checks read /repo's sources on every run
cd "$(dirname "$0")" && chmod +x check &&
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy, scipy; print('z3', z3.get_version_string())"
