#!/bin/bash
# check.sh PROPERTY: builds the checker from source and runs it on /repo's current tree
cd "$(dirname "$0")" || exit 2
here=$(pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0
mkdir -p bin evidence
(cd checker && go build -o ../bin/vbcheck.$$ . && mv -f ../bin/vbcheck.$$ ../bin/vbcheck) || { echo "cannot build the checker"; exit 2; }
[ "$1" = "" ] && exit 0
exec bin/vbcheck -repo "${VB_REPO:-/repo}" -verif "$here" -tier "${VERIF_TIER:-quick}" -prop "$1"
