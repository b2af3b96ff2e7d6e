#!/bin/bash
# Builds the simulators from the committed files, offline.
cd "$(dirname "$0")" || exit 2
for dir in sim sim/editor sim/page; do
  ./build.sh "$dir" || exit 1
done
