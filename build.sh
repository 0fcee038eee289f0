#!/bin/bash
# build the analyser into /verif/.bin (incremental, offline)
set -e
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/.bin"
cd "$here/smcheck"
go build -o "$here/.bin/smcheck.$$" . && mv "$here/.bin/smcheck.$$" "$here/.bin/smcheck"
