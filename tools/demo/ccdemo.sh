#!/bin/bash
# Generates C++ validators for the .proto files beside this script with the
# plugin of the current directory's tree, and runs main.cc against them.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
S=$(mktemp -d /tmp/pgvdemo.XXXXXX); trap 'rm -rf "$S"' EXIT
set -e
mkdir -p "$S/d"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off HOME=/root GOCACHE="$S/cache" CGO_ENABLED=0
# a cache that is there anyway saves time
[ -d /opt/vp/gocache ] && cp -a /opt/vp/gocache "$S/cache"
GOFLAGS=-mod=readonly go build -o "$S/protoc-gen-validate" .
protos=$(cd "$here" && ls *.proto)
cd "$S"
protoc -I "$here" -I "$repo" --plugin=protoc-gen-validate="$S/protoc-gen-validate" --cpp_out=d --validate_out=lang=cc:d $protos
protoc -I "$repo" --cpp_out=d validate/validate.proto
cp "$here"/*.cc .
jobs=()
for f in d/*.cc d/validate/*.cc *.cc; do
  g++ -std=c++17 -w -O1 $(cat "$here/flags" 2>/dev/null) -fPIC -I d -I "$repo" -c "$f" -o "$(echo "$f" | tr / _).o" & jobs+=($!)
done
for j in "${jobs[@]}"; do wait $j; done
if [ -f "$here/link.sh" ]; then . "$here/link.sh"; else g++ $(cat "$here/flags" 2>/dev/null) *.o -rdynamic -lprotobuf -lre2 -lpthread -ldl -o demo; timeout 60 ./demo; fi
