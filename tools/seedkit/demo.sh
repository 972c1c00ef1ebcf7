#!/bin/bash
# builds demo.cpp against the sources in the current directory and runs it: 0 as promised, 1 not
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$W"' EXIT
python3 "$here/kit.py" "$here/demo.cpp" "$W/demo" $(cat "$here/parts.txt") || exit 8
cd "$W" && OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=${THREADS:-2} timeout 120 ./demo
