#!/bin/bash
# Runs demo.rs against the editor (caret), parser and input_tree crates of the
# current directory's tree. The parser-combinator library comes from git and is
# not available offline: support/mini-chumsky stands in for it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/src"
cp -r "$here/support/mini-chumsky" "$tmp/mini-chumsky"
cp "$here/support/Cargo.lock" "$tmp/Cargo.lock"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
input_tree = { path = "$repo/aftermath-core/input_tree" }
parser = { path = "$repo/aftermath-core/parser" }
caret = { path = "$repo/aftermath-core/caret" }
serialization = { path = "$repo/aftermath-core/serialization" }
serde_json = "1.0"
[patch."https://github.com/zesterer/chumsky.git"]
chumsky = { path = "mini-chumsky" }
[workspace]
END
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo run --quiet --offline 2> "$tmp/err"
code=$?
grep -v '^warning' "$tmp/err" | tail -20 >&2
exit $code
