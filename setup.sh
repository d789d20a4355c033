#!/bin/bash
# Builds the explorers once (a few minutes when cold); every check rebuilds its own incrementally.
cd "$(dirname "$0")" && python3 tools/view.py && . ./env.sh &&
(cd harness && CARGO_TARGET_DIR=../build/target cargo build --offline --locked) &&
(cd semantic && CARGO_TARGET_DIR=../build/sem-target cargo build --offline --locked)
