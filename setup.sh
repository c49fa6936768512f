#!/bin/bash
# Builds the extractor and the harness dependencies, offline.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
(cd extractor && cargo build --offline) || exit 1
(cd harness && CARGO_TARGET_DIR=$PWD/target/d cargo build --offline) &
(cd harness && CARGO_TARGET_DIR=$PWD/target/r cargo build --offline --release) &
wait
exit 0
