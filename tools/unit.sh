#!/bin/bash
# Runs the repository's own unit tests and integration tests against the stand-ins.
# unit.sh [repo dir]   (default /repo)
R=${1:-/repo}
X=/tmp/rmunit; mkdir -p $X
cp -a "$(dirname "$0")/../shim" $X/ ; mkdir -p $X/rm
sed -e "s#/repo/src/lib.rs#$R/src/lib.rs#" -e 's#\.\./\.\./shim#../shim#' "$(dirname "$0")/../crates/rm/Cargo.toml" > $X/rm/Cargo.toml
rm -rf $X/rm/tests; cp -a $R/tests $X/rm/tests
sed -i 's/^autotests = false/autotests = false\n/' $X/rm/Cargo.toml
cat >> $X/rm/Cargo.toml <<T
[[test]]
name = "lib"
path = "tests/lib.rs"
T
cd $X/rm && CARGO_TARGET_DIR=$X/target cargo test --offline --no-fail-fast 2>&1 | grep -v '^warning\|\.\.\. ok' | grep -E 'test |FAILED|failed|panicked|error|result' | head -60
