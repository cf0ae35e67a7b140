#!/bin/bash
# Nothing is installed or built ahead of time: the checks import the package
# from /repo's working tree. This only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c 'import fpyutils, markdown_it, sys; assert sys.version_info >= (3, 8)'
command -v gcc >/dev/null
mkdir -p evidence replays
