#!/bin/bash
# build.sh WORK [race]: builds the simulator from /repo's working tree into WORK/verifsim.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
. /opt/vp/env.sh
W=$1
mkdir -p "$W" || exit 3
( cd "$here/tools/instr" && GOFLAGS=-mod=mod go build -o "$W/instr" . ) || exit 3
"$W/instr" -repo /repo -sim "$here/sim" -out "$W" || exit 3
cd /repo || exit 3
go build ${2:+-race -gcflags=all=-d=checkptr=0} -overlay "$W/overlay.json" -o "$W/verifsim" ./verifsim || exit 3
