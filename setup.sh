#!/bin/bash
# nothing to build: checks copy /repo's package and build its caches themselves
set -e
cd "$(dirname "$0")"
mkdir -p evidence
python=/opt/venv/bin/python
[ -x "$python" ] || python=python3
"$python" -c 'import mypy, typing_extensions, sys; print(sys.version)'
chmod +x check
