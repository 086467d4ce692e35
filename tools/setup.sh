#!/usr/bin/env bash
# builds the extractor and the bounded oracle (every check rebuilds them from /repo when needed)
set -e
cd "$(dirname "$0")/.."
mkdir -p .build
(cd extract && CARGO_TARGET_DIR="$PWD/../.build/xt" cargo +stable build --offline -q)
(cd harness && CARGO_TARGET_DIR="$PWD/../.build/oracle" cargo +stable build --release --offline -q)
verus --version | head -2
