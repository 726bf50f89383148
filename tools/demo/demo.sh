#!/bin/bash
# Exit 0 if the property holds in this scenario, nonzero if it is broken.
# Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
dir=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 3
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
sed "s|@REPO@|$repo|" "$here/Cargo.toml" > "$dir/Cargo.toml"
cp "$here/Cargo.lock" "$dir/"
cp "$here/main.rs" "$here/util.rs" "$dir/src/"
export CARGO_TARGET_DIR=${DEMO_TARGET_DIR:-$dir/target}
cd "$dir" || exit 3
cargo build --offline -q @FEATURES@ || exit 3
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
