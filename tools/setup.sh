#!/bin/bash
# builds the extractor and the replay harness
set -e
cd "$(dirname "$0")/.."
(cd vx && cargo build --offline -q)
(cd replay && cargo build --offline -q --release)
verus --version >/dev/null
