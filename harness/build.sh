#!/bin/bash
# usage: build.sh OUTDIR [race] [tags] : builds the harness from /repo's working tree into OUTDIR
. /opt/vp/env.sh
export GOSUMDB=off
O="$1"; RACE="$2"; TAGS="verif${3:+,$3}"; NAME=vh${RACE:+-$RACE}${3:+-$3}
mkdir -p "$O"; cd "$(dirname "$0")" || exit 4
V=$(cd .. && pwd)
# sources of the tree; development only: VERIF_OVERLAY_DIR has changed copies, to be tried without touching /repo
declare -A SRC
for g in /repo/*.go "$VERIF_OVERLAY_DIR"/*.go; do [ -f "$g" ] && SRC[$(basename "$g")]="$g"; done
A="$O/atomic-$NAME"; mkdir -p "$A"
for f in inspect.go.txt inspect_stub.go.txt; do
  # atomic operations are observed if that compiles; never in race builds
  for at in on off; do
    [ "$at$RACE" = onrace ] && continue
    { echo "{\"Replace\": {\"/repo/verif_inspect_overlay.go\": \"$V/overlay/$f\", \"/repo/verif_atomic_overlay.go\": \"$V/overlay/atomic_$at.go.txt\""
      [ $at = on ] && echo ",\"/repo/verifatomic/atomic.go\": \"$V/overlay/atomic_pkg.go.txt\""
      for b in "${!SRC[@]}"; do
        g="${SRC[$b]}"
        if [ $at = on ] && [[ "$b" != *_test.go ]] && grep -q '"sync/atomic"' "$g"; then
          sed -e 's#^\(import *\|[ \t]*\)"sync/atomic"#\1atomic "github.com/jayloop/radix/verifatomic"#' \
              -e 's#^\(import *\|[ \t]*\)\([a-zA-Z_.][a-zA-Z0-9_]*\) *"sync/atomic"#\1\2 "github.com/jayloop/radix/verifatomic"#' "$g" > "$A/$b"
          echo ",\"/repo/$b\": \"$A/$b\""
        elif [[ "$g" != /repo/* ]]; then echo ",\"/repo/$b\": \"$g\""; fi
      done
      echo "}}"; } > "$O/overlay-$NAME.json"
    if go build ${RACE:+-race} -tags "$TAGS" -overlay "$O/overlay-$NAME.json" -o "$O/$NAME" . 2> "$O/build-$NAME.log"; then exit 0; fi
  done
done
cat "$O/build-$NAME.log" >&2; exit 1
