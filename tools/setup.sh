#!/bin/bash
# Builds the harness once, to see that everything needed is there (and to warm the build cache).
cd "$(dirname "$0")/.." || exit 1
D=$(mktemp -d /tmp/radix-setup-XXXXXX)
trap 'rm -rf "$D"' EXIT
bash harness/build.sh "$D" && bash harness/build.sh "$D" race && "$D/vh" -prop C05 -phases && "$D/vh-race" -prop C05 -phases
