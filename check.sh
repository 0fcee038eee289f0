#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild the analyser if needed and decide one property on /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-quick}
. "$here/env.sh"
"$here/build.sh" >&2 || { echo "analyser does not build" >&2; exit 2; }
exec "$here/.bin/smcheck" -prop "$prop" -tier "$tier" -repo /repo -verif "$here"
