#!/bin/bash
# check.sh <property> [quick|thorough] [--only <unit>]
# Builds the explorer of the property from the working tree of /repo and runs it.
#   exit 0: the property held on everything explored; exit 1: VIOLATION line; 2: could not be decided.
# VERIF_REPO=<dir> checks another copy of the repository (development only).
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property}; shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in quick|thorough) tier=$1; shift;; esac
repo=${VERIF_REPO:-/repo}

[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOEXPERIMENT=${GOEXPERIMENT:-arenas} GOWORK=off
export VERIF_ROOT=${VERIF_ROOT:-$here}

case "$id" in
  C18|C20|C21|C22|C27|C28) cmd=unit;;
  C09|C24|C25)             cmd=io;;
  C11|C12|C13)             cmd=conc;;
  C*)                      cmd=core;;
  *) echo "unknown property $id"; exit 2;;
esac

base=/dev/shm; [ -d $base ] && [ -w $base ] || base=${TMPDIR:-/tmp}
work=$(mktemp -d "$base/vmcb-$id-XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
export VERIF_TMP=$base

mod=()
if [ "$repo" != /repo ]; then
  sed "s#=> /repo#=> $repo#" "$here/mc/go.mod" > "$work/go.mod" && cp "$here/mc/go.sum" "$work/go.sum"
  mod=(-modfile "$work/go.mod")
fi

build() { # build <output> <arguments of go build>
  local out=$1; shift
  for try in 1 2; do
    (cd "$here/mc" && go build "${mod[@]}" -o "$out" "$@") > "$work/build.log" 2>&1 && return 0
  done
  cat "$work/build.log"
  return 1
}

case $cmd in
  conc)
    . "$here/conc.sh" || exit 2
    ;;
  *)
    build "$work/$cmd" "./cmd/$cmd" || { echo "cannot build the explorer from $repo"; exit 2; }
    ;;
esac

if [ "$id" = C28 ]; then
  if (cd "$repo" && go build -o "$work/precision" ./cmd/precision) > "$work/build.log" 2>&1; then
    export VERIF_PRECISION=$work/precision
  else
    cat "$work/build.log"; echo "cannot build the precision command"; exit 2
  fi
fi

"$work/$cmd" "$id" "$tier" "$@"
exit $?
