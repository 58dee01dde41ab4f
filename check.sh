#!/bin/bash
# check.sh ID [quick|thorough]: decides property ID on /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
[ -n "$2" ] && export VERIF_TIER=$2
if [ ! -x "$here/bin/analyzer" ] || [ -n "$(find "$here/analyzer" -maxdepth 1 -newer "$here/bin/analyzer" -name '*.go' -print -quit)" ]; then
  "$here/setup.sh" >&2 || { echo "cannot build the analyzer" >&2; exit 2; }
fi
exec "$here/bin/analyzer" -check "$id" -repo "${VERIF_REPO:-/repo}" -verif "$here"
