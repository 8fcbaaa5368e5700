#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [vrun options]
# Builds the harness against /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; shift
dir=$(mktemp -d "${TMPDIR:-/tmp}/verif-$prop-XXXXXX") || exit 2
trap 'rm -rf "$dir"' EXIT
race=
case $prop in C20) race=-race ;; esac
if ! (cd harness && go build $race -o "$dir/vrun" ./cmd/vrun) >"$dir/build.log" 2>&1; then
  cat "$dir/build.log"
  echo "ERROR: the harness does not build against /repo"
  exit 2
fi
if [ "$prop" = C27 ]; then
  for c in xpdf describe image; do
    if ! (cd /repo && go build -o "$dir/cmd-$c" "./cmd/$c") >"$dir/build.log" 2>&1; then
      cat "$dir/build.log"
      echo "ERROR: cmd/$c does not build"
      exit 2
    fi
  done
  export VERIF_CMDS=$dir
fi
TMPDIR=$dir "$dir/vrun" -prop "$prop" -tier "$tier" -verif "$PWD" "$@"
