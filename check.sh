#!/bin/bash
# check.sh ID [tier]: builds the analyser and decides one property of /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${XX_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/xxverif" && go build -o "$tmp/xxverif" .) || { echo "the analyser does not build"; exit 2; }
"$tmp/xxverif" -repo "$repo" -verif "$here" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}"
