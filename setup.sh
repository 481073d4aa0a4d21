#!/bin/bash
# builds the extractor and, when present, the witness harness
cd "$(dirname "$0")" || exit 1
(cd extractor && cargo +stable build --offline --locked --quiet) || exit 1
for c in core svc; do
  [ -d harness/$c ] && (cd harness/$c && CARGO_TARGET_DIR=../target RUSTFLAGS=-Awarnings cargo +nightly-2023-12-06 build --offline --quiet)
done
exit 0
