#!/bin/bash
# check.sh <property id>: decide one property on /repo's current tree.
# exit 0: held on everything explored; exit 1 + VIOLATION line: broken.
cd /verif || exit 2
. /verif/env.sh
id=$1; shift
pkg=$(echo "$id" | tr 'A-Z' 'a-z')
export VERIF_TIER=${VERIF_TIER:-quick}
mkdir -p /verif/bin /verif/evidence
(cd engine && go build -o /verif/bin/gosym . ) || { echo "cannot build the engine" >&2; exit 2; }
exec /verif/bin/gosym -prop "$id" -pkg "verif/$pkg" -evidence "/verif/evidence/$id.json" "$@"
