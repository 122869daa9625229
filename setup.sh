#!/bin/sh
# Nothing is built ahead of time: every check elaborates and compiles what it needs from /repo.
# This only confirms that the tools the checks use are present.
command -v clang++ >/dev/null || { echo "clang++ missing" >&2; exit 1; }
/opt/venv/bin/python -c 'import amaranth' || exit 1
exit 0
