#!/bin/bash
# Builds the simulator from the library's current working tree.
#   build.sh            -> /verif/.build
# Environment (for development): SIM_REPO, SIM_BUILD.
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${SIM_REPO:-/repo}
OUT=${SIM_BUILD:-$V/.build}
export HOME=${HOME:-/root}
for g in /opt/veriftools/go1.27.3 /usr/local/go /opt/veriftools/go; do
  [ -x $g/bin/go ] && export PATH=$g/bin:$PATH && break
done
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
unset GOARCH GOOS
mkdir -p "$OUT"
exec 9>"$OUT/lock"
flock 9
cd "$V/sim" || exit 2
sed "s|=> /repo|=> $REPO|" go.mod >"$OUT/go.mod"
: >"$OUT/go.sum"
M="-modfile=$OUT/go.mod"
go build $M -o "$OUT/instr" ./cmd/instr || exit 2

plain=""
for try in 1 2 3 4 5 6; do
  "$OUT/instr" -repo "$REPO" -sim "$V/sim" -out "$OUT" -plain "$plain" >"$OUT/instr.log" || exit 2
  O="-overlay $OUT/overlay.json"
  rm -f "$OUT"/worker "$OUT"/worker386 "$OUT"/workerrace "$OUT"/drive
  ( go build $M $O -o "$OUT/worker" ./cmd/worker >"$OUT/log.worker" 2>&1 ) &
  ( GOARCH=386 CGO_ENABLED=0 go build $M $O -o "$OUT/worker386" ./cmd/worker >"$OUT/log.worker386" 2>&1 ) &
  ( CGO_ENABLED=1 go build $M -race $O -o "$OUT/workerrace" ./cmd/worker >"$OUT/log.workerrace" 2>&1 ) &
  ( go build $M $O -o "$OUT/drive" ./cmd/drive >"$OUT/log.drive" 2>&1 ) &
  wait
  [ -x "$OUT/worker" ] && [ -x "$OUT/worker386" ] && [ -x "$OUT/workerrace" ] && [ -x "$OUT/drive" ] && exit 0
  # an instrumented file that does not compile is taken without yield points
  bad=$(cat "$OUT"/log.worker* | grep -oE '^[^ :]+\.go:[0-9]+' | sed 's/:[0-9]*$//' | sort -u | sed -E "s#^.*gen/(nat|port)/##; s#^.*zzverif/port/##; s#_zp\.go\$#.go#; s#^$REPO/##" | sort -u | paste -sd, -)
  cat "$OUT"/log.worker* | head -20 >&2
  if [ $try -ge 4 ]; then plain=all; else
    new="$plain,$bad"; [ -z "$bad" ] && new=all; [ "$new" = "$plain" ] && new=all
    plain="$new"; fi
  echo "build.sh: retrying without yield points in: $plain" >&2
done
cat "$OUT"/log.* >&2
exit 2
