#!/bin/bash
# Builds the dependencies, so that a check which finds them only compiles
# the libraries of /repo and its own part.
cd "$(dirname "$0")" || exit 3
(cd harness && cargo build --release --offline --no-default-features --features C14) || exit 1
./check.sh C14 quick || exit 1
cd miri && MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-ignore-leaks" \
	cargo +nightly miri run -q --offline -- 1 0 0 2
