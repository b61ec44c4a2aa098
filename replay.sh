#!/bin/bash
# replay.sh ID FILE: run the case of a replay file again on the current tree.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
bash "$here/build.sh" || exit 2
VH_VERIF="$here" exec "$here/target/h/debug/vh" replay "$1" "$2"
