#!/bin/bash
# run.sh <property> [quick|thorough|replay FILE]: build the harness against /repo's working tree, then run one check.
dir=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$dir
cd "$dir/harness" || exit 2
# cargo decides by mtime: without its fingerprints the library under test is always built again.
rm -rf "$dir"/harness/target/release/.fingerprint/rphonetic-*
if ! cargo build --release --offline -q 2>"/tmp/rphonetic-verif-build.$$"; then
    cat "/tmp/rphonetic-verif-build.$$" >&2
    rm -f "/tmp/rphonetic-verif-build.$$"
    echo "the harness can't be built against /repo" >&2
    exit 2
fi
rm -f "/tmp/rphonetic-verif-build.$$"
cd "$dir" && exec ./harness/target/release/harness "$@"
