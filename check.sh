#!/bin/bash
# check.sh PROPERTY TIER: rebuilds the simulator from /repo's working tree and
# decides one property. Exit 0: held on everything explored; 1: violation;
# 3: the simulator could not be built or run.
P=$1
T=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/verifsim.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
race=
[ "$P" = C01 ] && race=race
"$here/tools/build.sh" "$W" $race || { echo "build failed" >&2; exit 3; }
"$W/verifsim" check -prop "$P" -tier "$T" -seed "${VERIF_SEED:-1}" -work "$W" -verif "$here"
