#!/bin/bash
# check.sh <property> [quick|thorough]: builds, explores, writes evidence/<property>.json. check.sh replay <file> [-v]: replays.
cd /verif || exit 2
bash /verif/build.sh || { echo "HARNESS ERROR: build failed" >&2; exit 2; }
. /verif/env.sh
if [ "$1" = replay ]; then if grep -q '^property P02' "$2"; then exec bash /verif/typed.sh "$@"; fi; exec "$FALLSIM" "$@"; fi
if [ "$1" = P02 ]; then exec bash /verif/typed.sh check "${2:-${VERIF_TIER:-quick}}"; fi
exec "$FALLSIM" check "$1" "${2:-${VERIF_TIER:-quick}}"
