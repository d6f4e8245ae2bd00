#!/bin/bash
# check.sh Cxx [quick|thorough]: decide one property of /repo's working tree.
cd "$(dirname "$0")" || exit 3
here=$PWD
id=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
for e in /opt/vp/env.sh; do [ -f $e ] && . $e; done
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
bin=$(mktemp -d /tmp/an.XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
if ! (cd analyzer && go build -o "$bin/an" .); then
  echo "the analyser does not build" >&2; exit 3
fi
"$bin/an" -prop "$id" -repo "${REPO:-/repo}" -verif "$here"
