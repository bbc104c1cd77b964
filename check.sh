#!/bin/bash
# usage: check.sh <property id>   -- decides one property on /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
. "$here/setup.sh" || exit 2
export VERIF_ROOT="$here"
exec "$here/bin/analyzer" "$@"
