#!/bin/sh
# nothing to build ahead of time: every check compiles /repo's current sources.
set -e
cbmc --version >/dev/null
goto-cc --version >/dev/null
goto-instrument --version >/dev/null
mkdir -p "$(dirname "$0")/evidence"
