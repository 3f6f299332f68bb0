#!/bin/bash
# run.sh <property> [-case N]   builds the explorer against /repo's working tree and runs one check.
# Exit 0: held on everything explored; exit 1 plus a VIOLATION line: broken; anything else: no answer.
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: run.sh ID}; shift
tier=${VERIF_TIER:-quick}
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=readonly GOWORK=off GOPROXY=off
tmp=$(mktemp -d /tmp/mcbuild.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
cd "$here/mc" || exit 3
flags=()
mode=$(awk -v id="$id" '$1 == id { print $2 }' instrumented.txt)
if [ -n "$mode" ]; then
  # Controlled scheduler and randomness: rewrite imports of the current sources through an overlay.
  if go run ./cmd/instr -out "$tmp/ov" >"$tmp/instr.log" 2>&1; then
    flags=(-overlay "$tmp/ov/overlay.json" -modfile "$tmp/ov/go.mod")
    if [ "$mode" = race ]; then flags+=(-race); fi
    export MC_INSTR=1
    if [ -s "$tmp/ov/unsupported.txt" ]; then export MC_FREE=1; fi
  else
    cat "$tmp/instr.log" >&2
  fi
fi
if ! go build "${flags[@]}" -o "$tmp/mc" . >"$tmp/build.log" 2>&1; then
  if [ -z "$MC_INSTR" ]; then cat "$tmp/build.log" >&2; exit 3; fi
  # The current sources use something the stand-ins lack: run them as they are, uncontrolled.
  unset MC_INSTR
  flags=()
  if [ "$mode" = race ]; then flags=(-race); fi
  if ! go build "${flags[@]}" -o "$tmp/mc" . >"$tmp/build.log" 2>&1; then
    cat "$tmp/build.log" >&2
    exit 3
  fi
fi
"$tmp/mc" supervise -id "$id" -tier "$tier" -verif "$here" "$@"
