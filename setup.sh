#!/bin/bash
# builds the extractor and the bounded stand-ins, offline, into git-ignored target folders
set -e
cd "$(dirname "$0")"
for c in vx harness harness-net; do
  [ -d "$c" ] || continue
  (cd "$c" && CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true cargo build --offline --quiet)
done
verus --version >/dev/null
mkdir -p evidence
