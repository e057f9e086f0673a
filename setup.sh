#!/bin/bash
# Builds all harness crates once (each check also builds what it needs by itself).
cd "$(dirname "$0")" || exit 2
. ./env.sh
for c in codec derive core client tcp server; do
  [ -d "harness/$c" ] || continue
  (cd "harness/$c" && cargo build --release --offline --quiet) || exit 1
done
