#!/bin/bash
# Builds the harnesses (offline) from the committed files and /repo's working tree.
cd "$(dirname "$0")" || exit 3
exec ./build.sh "harness snapharness"
