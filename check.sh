#!/bin/bash
# check.sh ID [quick|thorough] [--replay FILE]: builds the checker against /repo's working tree and runs one check.
set -u
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
export VERIF_ROOT=$root
bin=$(mktemp -d /tmp/gwv-check.XXXXXX)
trap 'rm -rf "$bin"' EXIT
cd "$root/mc" || exit 2
go build -buildvcs=false -o "$bin/check" ./cmd/check || exit 2
cd "$root" || exit 2
"$bin/check" "$@"
