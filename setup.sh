#!/bin/bash
# builds the verifier from the committed sources, when needed
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
. "$VERIF/env.sh"
mkdir -p "$VERIF/bin" "$VERIF/out" "$VERIF/evidence"
if [ -x "$VERIF/bin/gocv" ] && [ -z "$(find "$VERIF/gocv" -newer "$VERIF/bin/gocv" -name '*.go' -print -quit)" ]; then
	exit 0
fi
cd "$VERIF/gocv" && go build -o "$VERIF/bin/gocv.$$" . && mv "$VERIF/bin/gocv.$$" "$VERIF/bin/gocv"
