#!/bin/bash
# check.sh PROPERTY [quick|thorough]
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || { echo "engine build failed" >&2; exit 2; }
exec "$here/bin/gosym" -verif "$here" -repo /repo -check "$1" -tier "${2:-quick}"
