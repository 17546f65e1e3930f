#!/bin/bash
# Nothing has to be built: the checks import the sources of /repo directly.
# This only proves that the framework can observe the real code offline.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
mkdir -p evidence replays
exec bash ./run.sh --selftest
