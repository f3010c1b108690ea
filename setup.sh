#!/bin/bash
# builds the harness, its fallback and all tools in both profiles, such that the checks only rebuild what changed
set -u
cd "$(dirname "$0")" || exit 2
./check.sh C01 build-only || exit 1
(cd harness && cargo build --release --offline --target-dir ../.build/harness -p vcore --bin vpt) >.build/vpt.log 2>&1 || { tail -20 .build/vpt.log; exit 1; }
.build/harness/release/vp build || exit 1
echo "setup done"
