#!/bin/bash
# development aid: all (or the given) checks on a refactored copy
s=$1; shift
rm -rf /tmp/refac && cp -a /repo /tmp/refac && python3 /verif/dev/refactor.py $s /tmp/refac || exit 1
(. /opt/vp/env.sh; cd /tmp/refac && export GOFLAGS=-mod=mod && gofmt -l schema gen cmd/webrpc-gen; go vet ./schema/... && go test ./schema/... 2>&1 | grep -v "no test files")
for c in ${@:-$(seq -f C%02g 1 24)}; do VERIF_REPO=/tmp/refac /usr/bin/time -f %es bash /verif/check.sh $c 2>&1 | cut -c1-300; done
