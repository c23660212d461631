#!/bin/bash
# nothing to build ahead of time: every check reads /repo's working tree when it starts
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python -c 'import anyio, asgiref' 
node --version >/dev/null
