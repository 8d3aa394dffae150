#!/bin/bash
# Builds the extension module and the C++ harnesses once (every check rebuilds what changed).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/z5env/bin/python lib/zv/setup_build.py
