#!/bin/bash
# check.sh ID [--replay FILE | --suite NAME]: build the harness against /repo's working tree, run one check.
# Exit 0: held, 1: violation (line VIOLATION property=... replay=...), other: error of the check.
set -u
id=${1:?usage: check.sh ID}
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" "$id" || exit 3
bin=$("$here/build.sh" --bin "$id")
exec "$bin" "$@"
