#!/bin/bash
# Runs demo.py with the current directory's Python validator and stand-ins for
# the libraries it uses (stubs.tgz).
here=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /tmp/pgvdemo.XXXXXX); trap 'rm -rf "$S"' EXIT
set -e
mkdir "$S/stubs"
tar -xf "$here/stubs.tgz" -C "$S/stubs"
cp "$here"/*.py "$S"
repo=$PWD
protoc -I "$here" -I "$repo" --include_imports --descriptor_set_out="$S/py.ds" "$here/demo.proto"
cd "$S"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$S/stubs:$repo/python" timeout 120 python3 demo.py py.ds
