#!/bin/sh
# Builds /repo's command line tool, which C26 runs, from the working tree.
build=$(cd "$(dirname "$0")/.." && pwd)/build/cli
cd /repo && exec cargo build --release --offline --locked -p jxl_cli --bin jxl_cli --target-dir "$build" "$@"
