#!/bin/bash
# run with cwd /repo: fails with the change, passes without
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONPATH="$PWD/server:$PWD/common:$PWD/web:$PWD/client" PYTHONDONTWRITEBYTECODE=1
tmp=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$tmp"' EXIT
cp "$here/test_demo.py" "$tmp/"
cd "$tmp"
timeout 250 python -m pytest -q -p no:cacheprovider  --basetemp="$tmp/pt" -c /dev/null --rootdir="$tmp" test_demo.py
