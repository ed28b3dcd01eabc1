#!/bin/bash
# Generates validators for d.proto with the plugin of the current directory's
# tree, and runs main.go against them.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
S=$(mktemp -d /tmp/pgvdemo.XXXXXX); trap 'rm -rf "$S"' EXIT
set -e
mkdir -p "$S/d"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off HOME=/root GOCACHE="$S/cache" CGO_ENABLED=0
# a cache that is there anyway saves time
[ -d /opt/vp/gocache ] && cp -a /opt/vp/gocache "$S/cache"
GOFLAGS=-mod=readonly go build -o "$S/protoc-gen-validate" .
GOFLAGS=-mod=readonly go build -o "$S/protoc-gen-go" google.golang.org/protobuf/cmd/protoc-gen-go
protoc -I "$here" -I "$repo" --plugin=protoc-gen-go="$S/protoc-gen-go" --plugin=protoc-gen-validate="$S/protoc-gen-validate" \
  --go_out=paths=source_relative:"$S/d" --validate_out=lang=go,paths=source_relative:"$S/d" d.proto
cp "$here/main.go" "$S/"; cp go.sum "$S/"
[ ! -f "$here/legacy.go" ] || cp "$here/legacy.go" "$S/d/"
cat > "$S/go.mod" <<M
module demo

go 1.24

require (
	github.com/envoyproxy/protoc-gen-validate v0.0.0
	google.golang.org/protobuf v1.26.0
)

replace github.com/envoyproxy/protoc-gen-validate => $repo
M
cd "$S"
go build -o demo .
timeout 60 ./demo
