#!/bin/bash
# development aid: dev/fix.sh PROPERTY "commit subject" "what failed": test and commit the working tree of /repo
set -e
out=$(bash /verif/dev/rt.sh); echo "$out"
case "$out" in *"missing []"*) ;; *) exit 1;; esac
git -C /repo commit -qam "fix: $2"
h=$(git -C /repo rev-parse --short HEAD)
echo "fixed: property=$1 $h $3" >> /verif/known-findings.txt
