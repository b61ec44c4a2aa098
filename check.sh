#!/bin/bash
# check.sh ID quick|thorough: exit 0 held, 1 violated (VIOLATION line), 2 no answer.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
bash "$here/build.sh" || exit 2
exec "$here/target/h/debug/vh" check "$1" "${2:-quick}" "$here"
