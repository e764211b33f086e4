#!/bin/bash
# Nothing is compiled: check that the interpreters and modules the checks need are there.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence replays
python3-vt -c 'import hypothesis, json, sqlite3' && test -x /opt/venv/bin/python
