#!/bin/bash
# Compiles the current directory's Java runtime against stand-ins for the
# libraries it uses (stubs.tgz) and runs Demo.java with it.
here=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /tmp/pgvdemo.XXXXXX); trap 'rm -rf "$S"' EXIT
set -e
mkdir "$S/stubs" "$S/out"
tar -xf "$here/stubs.tgz" -C "$S/stubs"
javac -nowarn -d "$S/out" $(find "$S/stubs" "$PWD/java/pgv-java-stub/src/main" "$PWD/java/pgv-java-grpc/src/main" -name '*.java') "$here"/*.java
cd "$S"
timeout 120 java -cp "$S/out" Demo
