#!/bin/bash
# Nothing is compiled: the monitors are Python and import /repo's working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec ./run.sh --selftest
