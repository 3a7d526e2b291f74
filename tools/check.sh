#!/bin/sh
# check.sh ID TIER: rebuilds from /repo's working tree and runs one check.
cd "$(dirname "$0")/.." || exit 2
(cd harness && cargo build -q --release --offline --locked) || exit 2
if [ "$1" = C26 ]; then sh tools/cli.sh -q || exit 2; fi
VERIF_TIER=$2 exec ./build/target/release/harness run "$1"
