#!/bin/bash
# builds the instrumented and plain variants of the extension from /repo (cached by content)
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec /opt/pycold-venv/bin/python -m vlib.build plain asan
