#!/bin/bash
# Runs demo.mjs against the front end of the current directory's tree, on a
# simulated page with a stand-in for the core.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
node "$here/bundle.cjs" "$repo" "$tmp/demo.mjs" || exit 3
node "$tmp/demo.mjs"
