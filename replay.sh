#!/bin/bash
# replay.sh FILE : run the recorded case again (evidence/<id>.replay) and print what the monitor sees.
here=$(cd "$(dirname "$0")" && pwd)
export CCMON_ROOT="$here"
f=$(realpath "$1")
cd "$here/harness" && cargo build --release --offline -q && exec ./target/release/ccmon replay "$f"
