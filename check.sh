#!/bin/bash
# check.sh <property id> [--thorough]   decide one property on /repo's working tree
# check.sh --replay <file>      re-execute one recorded violation
# check.sh --build              build both checkers
set -u
cd "$(dirname "$0")" || exit 2
export MC_VERIF="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
[ "${2:-}" = --thorough ] && VERIF_TIER=thorough
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
unset RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p evidence
build() { cargo build --release --offline --quiet --manifest-path "crates/$1/Cargo.toml" 2>"target.$1.log" || { cat "target.$1.log" >&2; echo "check.sh: building crates/$1 failed" >&2; exit 2; }; }
bin_of() { case "$1" in C0[1-6]) echo mcpart;; *) echo mc;; esac; }
case "${1:-}" in
  --build) build mcpart; [ -d crates/mc ] && build mc; exit 0;;
  --replay) id=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$2" | head -1); b=$(bin_of "$id"); build "$b"; exec "target/release/$b" replay "$2";;
  C*) b=$(bin_of "$1"); build "$b"; exec "target/release/$b" check "$1";;
  *) echo "usage: check.sh <id> | --replay <file> | --build" >&2; exit 2;;
esac
