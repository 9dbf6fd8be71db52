#!/bin/bash
# development aid: run a command with copies of /repo and /verif mounted over them,
# so that a vcheck running at the same time is not disturbed
[ -d /tmp/ns/repo ] || { mkdir -p /tmp/ns; cp -a /repo /tmp/ns/repo; cp -a /verif /tmp/ns/verif; }
exec unshare -Urm bash -c 'mount --bind /tmp/ns/repo /repo && mount --bind /tmp/ns/verif /verif && cd /verif && exec "$@"' ns "$@"
