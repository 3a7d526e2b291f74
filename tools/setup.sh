#!/bin/sh
# Builds the harness, and /repo's crates with the hooks on, offline; then the command line tool without them.
cd "$(dirname "$0")/.." || exit 2
(cd harness && cargo build --release --offline --locked "$@") || exit 2
exec sh tools/cli.sh "$@"
