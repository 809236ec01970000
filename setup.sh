#!/bin/sh
# Nothing to build: the framework is Python and imports prosimos from /repo's working tree.
cd "$(dirname "$0")" && mkdir -p evidence out && exec /opt/venv/bin/python -W ignore check.py selftest
