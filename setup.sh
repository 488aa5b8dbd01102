#!/bin/bash
# Build the monitor from the committed files, offline.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness" && exec cargo build --release --offline -q
