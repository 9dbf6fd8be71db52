#!/bin/bash
# check.sh ID: decides one property on the current tree of /repo.
cd "$(dirname "$0")" || exit 2
[ -x bin/vrun ] || bash setup.sh || exit 2
exec bin/vrun check "$1"
