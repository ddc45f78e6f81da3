#!/usr/bin/env bash
# Builds everything the checks need, so that their own runs rebuild only what has changed.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" || exit 2
"$here/probe.sh" quick || exit 2
find "$here/build/probe" -maxdepth 1 -type f \( -name '*.out' -o -name '*.fail' \) -delete
