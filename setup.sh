#!/bin/bash
# Nothing is installed: every check builds the simulator itself. This only
# shows early that the build works.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/verifsim.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
"$here/tools/build.sh" "$W" && "$W/verifsim" list >/dev/null
