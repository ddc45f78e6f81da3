#!/usr/bin/env bash
# run.sh ID [quick|thorough] [one SECTION INDEX | list]
# Builds the harness against the current working tree of /repo and runs one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="${1:?property id}"
tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_DIR="$here" VERIF_TIER="$tier"
"$here/build.sh" || { echo "harness build failed" >&2; exit 2; }
mc="$here/build/release/mc"
# P28 compares build configurations, which have to be built and run first
if [ "$id" = P28 ] && [ "${3:-}" != list ]; then
  "$here/probe.sh" "$tier" || { echo "probe failed" >&2; exit 2; }
fi
case "${3:-}" in
  one)  exec "$mc" one "$id" "$tier" "$4" "$5" ;;
  list) exec "$mc" list "$id" "$tier" ;;
  *)    "$mc" check "$id" "$tier"
        rc=$?
        # the digests of a thorough run take a gigabyte
        [ "$id" = P28 ] && find "$here/build/probe" -maxdepth 1 -type f \( -name '*.out' -o -name '*.fail' \) -delete
        exit $rc ;;
esac
