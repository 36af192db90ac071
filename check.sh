#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
. "$VERIF/env.sh"
"$VERIF/setup.sh" || exit 3
cd "$VERIF"
exec "$VERIF/bin/gocv" check "$1" "${2:-${VERIF_TIER:-quick}}"
