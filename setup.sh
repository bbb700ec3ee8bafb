#!/bin/bash
# builds the framework from the committed files (offline)
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replay
(cd harness && CARGO_TARGET_DIR=../build/harness cargo build --release --offline --quiet)
python3 mirv/dump.py
