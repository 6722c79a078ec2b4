#!/bin/bash
# reftest.sh PROP SCRIPT.py : run a behaviour-preserving edit in a private copy
if [ -z "$IN" ]; then
  rc=$(mktemp -d /tmp/reftest.XXXXXX); trap 'rm -rf "$rc"' EXIT
  cp -a /repo/. "$rc"; IN=1 unshare -m bash -c 'mount --bind "$0" /repo && exec "$@"' "$rc" bash "$0" "$@"; exit
fi
cd /repo; python3 $2 || exit; . /opt/vp/env.sh; go build ./... || exit; git diff --stat
time timeout 900 /verif/bin/check $1 2>&1 | grep -v "^  " | tail -4 | cut -c1-300
grep -o '"discharged_bounded": *[0-9]*' /verif/evidence/$1.json
